#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (source of truth for titles, statements, anchors)."""
import json, os
MAPS=["int_map.go","string_map.go","bytes_map.go","arr_map.go","generic_map.go"]
SETS=["int_set.go","string_set.go","bytes_set.go","arr_set.go","generic_set.go"]
ALL=["amt.go"]+MAPS+SETS
P=[]
def p(id,title,statement,over,text,why,files,mech,state=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),
      why_tests_cant=why,anchors=dict(files=files,state=state or [],mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=[],hook_needed=None)))
TRIE=[dict(name="trie of link arrays",meaning="16-way branches with presence/type bitmaps; leaves hold one key-value box",where="amt.go: root, link")]
p("C01","Every map type behaves as a mathematical map",
  "After any sequence of insertions, updates, callback modifications and deletions, looking up a key in a map (integer, string, byte-slice, byte-array or generic) returns exactly the value most recently stored for that key, and reports it missing if it was never stored or was deleted since. An operation on one key never adds, removes or alters the entry of any other key.",
  ["inputs","histories"],"all keys and values (law-abiding keys for generic and array maps), all hash seeds, all operation histories, all trie shapes",
  "Tests insert consecutive small non-negative integers or their decimal strings in StringMap/IntMap only; ArrMap, BytesMap and generic Map with several keys, negative keys and deep collisions are never exercised, and no finite sample covers all shapes.",
  ["amt.go"]+MAPS,[("Set/Mod descent, split, insert","*_map.go: Set, Mod"),("Del removal, shift and collapse","*_map.go: Del"),("lookup","*_map.go: Ptr, Get, Val")],TRIE)
p("C02","Every set type behaves as a mathematical set",
  "After any sequence of additions and deletions, a set (integer, string, byte-slice, byte-array or generic) reports a key as contained exactly when it was added and not deleted since its last addition. An operation on one key never changes the membership of any other key.",
  ["inputs","histories"],"all keys, all hash seeds, all histories, all trie shapes",
  "Only StringSet and IntSet are tested, with consecutive non-negative keys; BytesSet, ArrSet and generic Set deletion are never run.",
  ["amt.go"]+SETS,[("Add descent, split, insert","*_set.go: Add"),("Del removal, shift and collapse","*_set.go: Del"),("lookup","*_set.go: Has")],TRIE)
p("C03","Len is exactly the number of distinct keys stored",
  "At every moment between operations, the reported length of a map or set equals the number of distinct keys it contains. Updating or re-adding an existing key, deleting an absent key and looking a key up leave it unchanged; adding a new key raises it by one and deleting a present key lowers it by one.",
  ["inputs","histories"],"all histories over all ten container types",
  "Tests check the length only after bulk loads and bulk deletes of distinct keys.",
  ALL,[("len bookkeeping","Set/Mod/Add/Del: m.len++, m.len--"),("Len","amt.go: root.Len")])
p("C04","Dep is the exact mean depth of the stored keys",
  "The reported depth of a map or set equals the arithmetic mean, over all stored keys, of the greatest number of leading 4-bit hash digits that key shares with any other stored key (which is the branch level at which it is stored; zero when no other key shares its first digit), and is 0 for an empty container. This stays exact through every insertion, split, deletion and collapse.",
  ["inputs","histories"],"all histories, seeds and trie shapes, all ten container types",
  "Tests only check that the depth exceeds 1 after a million insertions and is 0 when everything has been deleted.",
  ALL,[("dep bookkeeping","Set/Mod/Add/Del: m.dep"),("Dep","amt.go: root.Dep")])
p("C05","Structure depends only on the contents, not on the history",
  "Two containers of the same type with the same hash seed and the same set of keys have identical internal structure, so they report the same depth and iterate their keys in the same order, whatever sequence of insertions and deletions produced each of them. In particular deleting a key restores exactly the structure the container would have had without it.",
  ["inputs","histories"],"all pairs of histories ending in the same key set, all seeds",
  "The one test builds two sets by the same insertion order and compares mean depths; deletions and reordered insertions are never compared.",
  ALL,[("collapse of single-valued branches","Del: collapse loop"),("split","Set/Mod/Add: collision loop")],TRIE)
p("C06","Iteration visits every entry exactly once and stops on request",
  "Iterating a map or set calls the callback exactly once for every stored key, passing the key and (for maps) a pointer to its current stored value, and for no other key. If the callback returns false no further call is made; iterating an unmodified container again visits the entries in the same order.",
  ["inputs","histories"],"all container contents, all points at which the callback may stop",
  "Tests only count the calls made on StringMap, StringSet, IntMap and IntSet, and never stop early or check the keys and values passed.",
  ALL,[("recursive scan","intScan, stringScan, bytesScan, arrScan, mapScan, *SetScan"),("All","*.go: All")])
p("C07","Value pointers stay valid and current until their key is deleted",
  "A pointer to a stored value, obtained by lookup, iteration or a modification callback, keeps referring to the live value of that key through every later operation until that key is deleted: writes through the pointer are seen by lookups, and later stores to the key are seen through the pointer. Splits, array growth, shrinking and collapses caused by other keys do not detach it, and two distinct keys never share a value.",
  ["inputs","histories"],"all histories in which the key is not deleted, all five map types",
  "Tests write through pointers only immediately, inside a callback.",
  ["amt.go"]+MAPS,[("value boxes moved by reference","Set/Mod/Del: link copies keep ptr"),("in-place update","Set/Mod: cval.v = value")])
p("C08","No operation on an initialized container panics, hangs or strays",
  "On an initialized container no sequence of operations ever panics, loops forever, dereferences an invalid pointer, or reads or writes memory outside the storage the container allocated, whatever keys are used (negative integers, empty strings and nil slices included). This assumes one writer at a time, callbacks that do not themselves panic or modify the container, and keys whose hash digit sequences differ within the first 240 digits.",
  ["inputs","histories"],"all inputs and histories, all trie depths up to 239 and all array fill levels",
  "Out-of-bounds pointer arithmetic and type confusion are silent in Go's unsafe code unless a test happens to hit them; the tests use small non-negative keys.",
  ALL,[("pointer arithmetic on link arrays","all methods: unsafe.Pointer(uintptr(l.ptr)+uintptr(idx)*linkSize)"),("array allocation","amt.go: newLinkArray"),("branch/leaf type bits","link.tmap")])
p("C09","Lookups and iteration never write",
  "Looking up, testing membership, iterating, and reading the length or depth of a container write nothing to the container or to any other shared memory, so any number of them may run concurrently without synchronization and leave no trace.",
  ["inputs","schedules"],"all lookups on all containers, hence all interleavings of readers",
  "Tests are single-threaded and compare only results, not whether memory was written.",
  ALL,[("read-only methods","Ptr, Get, Val, Has, All, Len, Dep, Nil and the scan functions")])
p("C10","Modification callbacks run once, correctly informed, on a sound map",
  "A callback modification calls the callback exactly once, with true and a pointer to the stored value if the key was present, or with false and a pointer to a zero value if it was absent, and what the callback leaves there is what the map then stores for the key. While the callback runs the map is in its state from before the call, so it may be read, and if the callback panics the map remains exactly as it was (apart from what was written through the pointer).",
  ["inputs","histories","fault_sequences"],"all keys, contents and shapes; a panic of the callback at any call",
  "Tests call Mod twice on a nearly empty StringMap; a colliding new key, a panicking callback or one that reads the map is never tried.",
  ["amt.go"]+MAPS,[("Mod","*_map.go: Mod")])
p("C11","Uninitialized containers read as empty; constructors give empty ones",
  "An uninitialized (zero) container reports that it is nil, has length 0 and depth 0, and for maps returns the zero value for any key through the value accessor; every other method panics on it without any other effect. A constructor always returns a container that is not nil, holds no key, and is fully usable.",
  ["inputs","configurations"],"all ten container types, all keys and value types",
  "Tests check one nested uninitialized map lookup and the nil report of four fresh containers.",
  ALL,[("nil-root handling","Nil, Len, Dep, Val; amt.go: root.Len, root.Dep"),("construction","amt.go: newRoot; New*")])
p("C12","The supplied key types obey the key laws at every rehash count",
  "Each key type and hashing helper supplied for generic containers (integer, string, byte-slice and the byte hashing function) has an equality that holds exactly for identical contents, and hashes, for a given seed and rehash count n, exactly n+1 consecutive copies of its fixed content encoding, for every n. Hence equal keys always hash equally, and the string, byte-slice and helper hashes of the same bytes agree.",
  ["inputs"],"all keys, all seeds, all rehash counts",
  "No test calls the helpers directly; generic containers are tested with a single key.",
  ["int_map.go","string_map.go","bytes_map.go","generic_map.go"],[("Hash methods","Int.Hash, String.Hash, Bytes.Hash, HashBytes"),("Equal methods","Int.Equal, String.Equal, Bytes.Equal"),("integer encoding","int_map.go: intbytes")])
p("C13","Integer containers keep the whole 64-bit key range exact",
  "Integer maps and sets store, distinguish, iterate and delete every 64-bit key exactly, including negative keys and keys above 32 bits: the key handed to iteration callbacks is bit-for-bit the key inserted, and no key's bits are ever mistaken for structure or for another key.",
  ["inputs","histories"],"all 2^64 keys, all trie positions in which a key can be stored, split or moved",
  "Tests use only keys below one million, whose upper 32 bits are zero, so the half of the key stored in the type bitmap is always zero.",
  ["amt.go","int_map.go","int_set.go"],[("inline key encoding in pmap/tmap","int_map.go, int_set.go: link{pmap: uint32(key), tmap: uint32(key >> 32)}"),("branch overwrite of an inline key","Set/Mod/Add collision loop")])
p("C14","Copies share state; separate containers are independent",
  "A copy of a container value denotes the same container: every operation through one copy is visible through all copies. Two containers constructed separately never affect each other, and no operation writes to any memory other than its own container, newly allocated memory, or a value a caller's callback was given; in particular a byte-slice key is never written to.",
  ["inputs","histories"],"all operations on all container types; all pairs of containers and copies",
  "Tests never use two containers of the same type with different contents, nor a copy.",
  ALL,[("single pointer receiver","*.go: struct types embedding *root"),("fresh allocation","amt.go: newRoot")])
p("C15","Hash collisions at any depth are resolved without loss",
  "Keys that agree in any number of leading hash digits, including in all digits of one or more complete 64-bit hashes, are still stored, found, kept apart and deleted individually: every operation derives the digit for a level from the same rehash and the same four bits for every key. Only equality of keys, never equality of hashes, makes two keys the same.",
  ["inputs","histories"],"all pairs of unequal keys and all collision lengths below 240 digits, all ten container types",
  "With a million random keys collisions stop near 10 digits, so the rehash path (16 digits and more) is never reached by any test.",
  MAPS+SETS,[("rehash on digit exhaustion","descent and collision loops: d%(64/4), d&0xF"),("conflicting key rehash","chw/chd computation")])
p("C16","Branch storage stays compact as entries come and go",
  "Outside the fixed-size top level, every branch of a map or set occupies storage for exactly its number of entries rounded up to a multiple of four, and every branch leads to at least two keys. Storage therefore shrinks again when entries are deleted, down to the bare top level for an emptied container.",
  ["inputs","histories"],"all histories, all branch fill levels",
  "Tests never look at memory; a branch that is over-allocated or not shrunk behaves identically otherwise.",
  ALL,[("array sizing","amt.go: newLinkArray; Set/Mod/Add growth; Del shrink"),("collapse","Del: collapse loop")])
with open(os.path.join(os.path.dirname(__file__),'..','properties.jsonl'),'w') as f:
    for x in P: f.write(json.dumps(x)+'\n')
