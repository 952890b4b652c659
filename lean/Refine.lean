/-
  From memory to trees. Compiled together with Amt.lean (lemmas.py).

  Here the contracts of spec.py are restated clause by clause on the memory they speak
  about: arrays of links, bitmaps and ranks, boxes, frames, owners of addresses. `Repr`
  says which tree a memory represents. Proved: a call that does to the memory what its
  contract says does to the tree what Amt.lean says (`ins_refines`, `del_refines`,
  `get_refines`, `scan_refines`), and what the contracts assume of the memory holds
  whenever it represents a well-formed tree (`pre`).
-/
namespace Amt
open Node
variable {K V : Type} [DecidableEq K] (dig : K → Nat → Fin 16)

abbrev Bits := Fin 16 → Bool

/-- Number of set bits of a bitmap below bit `d`; in the whole bitmap. -/
def rank (pm : Bits) (d : Fin 16) : Nat := (List.finRange 16).countP fun q => decide (q < d) && pm q
def cnt (pm : Bits) : Nat := (List.finRange 16).countP pm

def setBit (pm : Bits) (d : Fin 16) (x : Bool) : Bits := fun q => if q = d then x else pm q

def round4 (n : Nat) : Nat := (n + 3) / 4 * 4

theorem countP_lt {p q : Fin 16 → Bool} : ∀ (l : List (Fin 16)), (∀ x ∈ l, p x = true → q x = true) →
    (∃ y ∈ l, q y = true ∧ p y = false) → l.countP p < l.countP q := by
  intro l
  induction l with
  | nil => rintro _ ⟨y, hy, _⟩; simp at hy
  | cons a l ih =>
    intro h1 h2
    rw [List.countP_cons, List.countP_cons]
    have hle : l.countP p ≤ l.countP q := List.countP_mono_left fun x hx => h1 x (by simp [hx])
    by_cases ha : q a = true ∧ p a = false
    · simp [ha.1, ha.2]; omega
    · have h3 : l.countP p < l.countP q := by
        apply ih (fun x hx => h1 x (by simp [hx]))
        obtain ⟨y, hy, hq, hp⟩ := h2
        rcases List.mem_cons.1 hy with rfl | hy
        · exact absurd ⟨hq, hp⟩ ha
        · exact ⟨y, hy, hq, hp⟩
      have := h1 a (by simp)
      cases hp : p a <;> cases hq : q a <;> simp_all <;> omega

theorem rank_lt {pm : Bits} {a b : Fin 16} (h : a < b) (ha : pm a = true) : rank pm a < rank pm b := by
  unfold rank
  apply countP_lt
  · intro x _ hx
    simp at hx ⊢
    exact ⟨Fin.lt_trans hx.1 h, hx.2⟩
  · exact ⟨a, List.mem_finRange a, by simp [h, ha], by simp⟩

theorem rank_ne {pm : Bits} {a b : Fin 16} (h : a ≠ b) (ha : pm a = true) (hb : pm b = true) : rank pm a ≠ rank pm b := by
  rcases Nat.lt_or_gt_of_ne (fun e => h (Fin.ext e) : (a : Nat) ≠ b) with h | h
  · exact Nat.ne_of_lt (rank_lt h ha)
  · exact Nat.ne_of_gt (rank_lt h hb)

theorem rank_cnt {pm : Bits} {a : Fin 16} (ha : pm a = true) : rank pm a < cnt pm := by
  unfold rank cnt
  apply countP_lt
  · intro x _ hx; simp at hx; exact hx.2
  · exact ⟨a, List.mem_finRange a, ha, by simp⟩

theorem countP_setBit (pm : Bits) (d : Fin 16) : ∀ (l : List (Fin 16)), l.Nodup → d ∈ l →
    l.countP (setBit pm d true) = l.countP (setBit pm d false) + 1 := by
  intro l
  induction l with
  | nil => intro _ h; simp at h
  | cons a l ih =>
    intro hn hd
    rw [List.nodup_cons] at hn
    rw [List.countP_cons, List.countP_cons]
    by_cases e : a = d
    · subst e
      have : l.countP (setBit pm a true) = l.countP (setBit pm a false) := by
        apply List.countP_congr
        intro x hx
        have : x ≠ a := fun e => hn.1 (e ▸ hx)
        simp [setBit, this]
      rw [this]; simp [setBit]
    · have hd' : d ∈ l := by
        rcases List.mem_cons.1 hd with h | h
        · exact absurd h.symm e
        · exact h
      rw [ih hn.2 hd']
      simp [setBit, e]; omega

theorem setBit_same {pm : Bits} {d : Fin 16} {x : Bool} (h : pm d = x) : setBit pm d x = pm := by
  funext q; by_cases e : q = d
  · subst e; simp [setBit, h]
  · simp [setBit, e]

theorem cnt_add {pm : Bits} {d : Fin 16} (h : pm d = false) : cnt (setBit pm d true) = cnt pm + 1 := by
  have := countP_setBit pm d _ (List.nodup_finRange 16) (List.mem_finRange d)
  rw [setBit_same h] at this; exact this

theorem cnt_del {pm : Bits} {d : Fin 16} (h : pm d = true) : cnt (setBit pm d false) = cnt pm - 1 := by
  have := countP_setBit pm d _ (List.nodup_finRange 16) (List.mem_finRange d)
  rw [setBit_same h] at this
  unfold cnt; omega

theorem cnt_le (pm : Bits) : cnt pm ≤ 16 := by
  unfold cnt
  have := List.countP_le_length (p := pm) (l := List.finRange 16)
  simpa using this

def none16 : Bits := fun _ => false

theorem cnt_none : cnt none16 = 0 := by decide

theorem cnt_one (a : Fin 16) : cnt (setBit none16 a true) = 1 := by rw [cnt_add (by rfl), cnt_none]

theorem cnt_two {a b : Fin 16} (h : a ≠ b) : cnt (setBit (setBit none16 a true) b true) = 2 := by
  rw [cnt_add, cnt_one]; simp [setBit, none16, Ne.symm h]

theorem rank_one (a : Fin 16) : rank (setBit none16 a true) a = 0 := by
  unfold rank
  rw [List.countP_eq_zero]
  intro x _
  simp [setBit, none16]
  intro h e; subst e; exact absurd h (Fin.lt_irrefl _)

/-! ### memory -/

/-- A link: a pointer and two bitmaps. In integer containers the bitmaps of a
    leaf are its key. -/
structure Slot where
  ptr : Nat
  pm : Bits
  tm : Bits

/-- Where leaves keep their keys, and whether they have a box. -/
structure Flav (K V : Type) where
  inSlot : Option (Slot → K)
  box : Bool
  one : box = false → ∀ v w : V, v = w
  ins : box = false → inSlot ≠ none

/-- One state of the memory, as far as one container is concerned. -/
structure Mem (K V : Type) where
  slot : Nat → Nat → Slot
  cap : Nat → Nat
  bkey : Nat → K
  bval : Nat → V
  root : Slot
  len : Nat
  dep : Nat

variable (fl : Flav K V)

def leafKey (m : Mem K V) (s : Slot) : K :=
  match fl.inSlot with
  | some f => f s
  | none => m.bkey s.ptr

/-- Slots of the array of a branch at path `p` with `n` entries. -/
def capOf (p : List (Fin 16)) (n : Nat) : Nat := if p = [] then 16 else round4 n

/-- Who an address belongs to: a box (true) or an array (false), and the path of
    its leaf or branch. -/
abbrev Own := Nat → Bool × List (Fin 16)

/-- The slot `s`, at path `p`, holds the tree. -/
def Repr (m : Mem K V) (o : Own) : List (Fin 16) → Slot → Node K V → Prop
  | _, _, empty => True
  | p, s, leaf k v => leafKey fl m s = k ∧ m.bval s.ptr = v ∧ (fl.box = true → o s.ptr = (true, p)) ∧
      (fl.inSlot = none → s.pm = none16 ∧ s.tm = none16)
  | p, s, branch c => o s.ptr = (false, p) ∧ m.cap s.ptr = capOf p (cnt s.pm) ∧
      ∀ d, (s.pm d = true ↔ c d ≠ empty) ∧ (s.tm d = true ↔ isLeaf (c d)) ∧
        Repr m o (p ++ [d]) (m.slot s.ptr (rank s.pm d)) (c d)

/-- Addresses the tree in slot `s` uses. -/
def Uses (m : Mem K V) (x : Nat) : Slot → Node K V → Prop
  | _, empty => False
  | s, leaf _ _ => fl.box = true ∧ s.ptr = x
  | s, branch c => s.ptr = x ∨ ∃ d, Uses m x (m.slot s.ptr (rank s.pm d)) (c d)

/-- Address `x` holds the same in both states, except perhaps slot `j` of the
    array at path `Q`. -/
def Keep (m m' : Mem K V) (o o' : Own) (Q : Option (List (Fin 16) × Nat)) (x : Nat) : Prop :=
  o' x = o x ∧ ((o x).1 = true → m'.bkey x = m.bkey x ∧ m'.bval x = m.bval x) ∧
    ((o x).1 = false → m'.cap x = m.cap x ∧
      ∀ i, i < m.cap x → (∃ q, Q = some (q, i) ∧ o x = (false, q)) ∨ m'.slot x i = m.slot x i)

theorem uses_owner {m : Mem K V} {o : Own} : ∀ (t : Node K V) (p : List (Fin 16)) (s : Slot), Repr fl m o p s t →
    ∀ x, Uses fl m x s t → p <+: (o x).2 := by
  intro t
  induction t with
  | empty => intro p s _ x h; exact absurd h (by simp [Uses])
  | leaf k v =>
    intro p s h x hu
    obtain ⟨hb, rfl⟩ := hu
    rw [h.2.2.1 hb]; exact List.prefix_refl _
  | branch c ih =>
    intro p s h x hu
    rcases hu with rfl | ⟨d, hu⟩
    · rw [h.1]; exact List.prefix_refl _
    · have := ih d _ _ (h.2.2 d).2.2 x hu
      exact List.IsPrefix.trans (List.prefix_append _ _) this

theorem rank_cap {m : Mem K V} {o : Own} {p : List (Fin 16)} {s : Slot} {c : Fin 16 → Node K V} (h : Repr fl m o p s (branch c))
    {d : Fin 16} (hd : s.pm d = true) : rank s.pm d < m.cap s.ptr := by
  rw [h.2.1]
  have h1 := rank_cnt hd
  have h2 := cnt_le s.pm
  unfold capOf
  split
  · omega
  · unfold round4; omega

theorem leafKey_same {m m' : Mem K V} {s : Slot} (h : fl.box = true → m'.bkey s.ptr = m.bkey s.ptr) :
    leafKey fl m' s = leafKey fl m s := by
  unfold leafKey
  cases hi : fl.inSlot with
  | some f => rfl
  | none =>
    cases hb : fl.box with
    | true => exact h hb
    | false => exact absurd hi (fl.ins hb)

theorem bval_same {m m' : Mem K V} {s : Slot} (h : fl.box = true → m'.bval s.ptr = m.bval s.ptr) :
    m'.bval s.ptr = m.bval s.ptr := by
  cases hb : fl.box with
  | true => exact h hb
  | false => exact fl.one hb _ _

/-- A subtree whose memory is not touched stays, and uses what it used. -/
theorem repr_keep {m m' : Mem K V} {o o' : Own} : ∀ (t : Node K V) (p : List (Fin 16)) (s : Slot), Repr fl m o p s t →
    (∀ x, Uses fl m x s t → Keep m m' o o' none x) →
    Repr fl m' o' p s t ∧ ∀ x, Uses fl m' x s t ↔ Uses fl m x s t := by
  intro t
  induction t with
  | empty => intro p s h _; exact ⟨trivial, fun x => by simp [Uses]⟩
  | leaf k v =>
    intro p s h hk
    refine ⟨⟨?_, ?_, ?_, h.2.2.2⟩, fun x => by simp [Uses]⟩
    · rw [leafKey_same fl fun hb => ((hk _ ⟨hb, rfl⟩).2.1 (by rw [h.2.2.1 hb])).1]; exact h.1
    · rw [bval_same fl fun hb => ((hk _ ⟨hb, rfl⟩).2.1 (by rw [h.2.2.1 hb])).2]; exact h.2.1
    · intro hb; rw [(hk _ ⟨hb, rfl⟩).1]; exact h.2.2.1 hb
  | branch c ih =>
    intro p s h hk
    have h0 := hk s.ptr (Or.inl rfl)
    have h1 := h0.2.2 (by rw [h.1])
    have hs : ∀ d, c d ≠ empty → m'.slot s.ptr (rank s.pm d) = m.slot s.ptr (rank s.pm d) := by
      intro d hd
      rcases h1.2 _ (rank_cap fl h ((h.2.2 d).1.2 hd)) with ⟨q, hq, _⟩ | h
      · exact absurd hq (by simp)
      · exact h
    have hd := fun d => ih d _ _ (h.2.2 d).2.2 fun x hx => hk x (Or.inr ⟨d, hx⟩)
    refine ⟨⟨h0.1.trans h.1, h1.1.trans h.2.1, fun d => ⟨(h.2.2 d).1, (h.2.2 d).2.1, ?_⟩⟩, fun x => ?_⟩
    · by_cases he : c d = empty
      · rw [he]; trivial
      · rw [hs d he]; exact (hd d).1
    · simp only [Uses]
      refine or_congr Iff.rfl (exists_congr fun d => ?_)
      by_cases he : c d = empty
      · rw [he]; simp [Uses]
      · rw [hs d he]; exact (hd d).2 x

/-! ### the route of a key in memory -/

/-- Header of the branch `n` levels below the branch with header `s` at level `L`. -/
def hdr (m : Mem K V) (k : K) : Nat → Nat → Slot → Slot
  | 0, _, s => s
  | n + 1, L, s => hdr m k n (L + 1) (m.slot s.ptr (rank s.pm (dig k L)))

def pathOf (k : K) : Nat → Nat → List (Fin 16)
  | 0, _ => []
  | n + 1, L => dig k L :: pathOf k n (L + 1)

theorem hdr_succ (m : Mem K V) (k : K) : ∀ (n L : Nat) (s : Slot), hdr dig m k (n + 1) L s =
    m.slot (hdr dig m k n L s).ptr (rank (hdr dig m k n L s).pm (dig k (L + n))) := by
  intro n
  induction n with
  | zero => intro L s; simp [hdr]
  | succ n ih =>
    intro L s
    rw [hdr, ih, hdr]
    rw [show L + 1 + n = L + (n + 1) from by omega]

theorem pathOf_succ (k : K) : ∀ (n L : Nat), pathOf dig k (n + 1) L = pathOf dig k n L ++ [dig k (L + n)] := by
  intro n
  induction n with
  | zero => intro L; simp [pathOf]
  | succ n ih =>
    intro L
    rw [pathOf, ih, pathOf]
    rw [show L + 1 + n = L + (n + 1) from by omega]; simp

theorem pathOf_length (k : K) : ∀ (n L : Nat), (pathOf dig k n L).length = n := by
  intro n
  induction n with
  | zero => intro L; rfl
  | succ n ih => intro L; simp [pathOf, ih]

/-- Where the header of the branch `n` levels down is stored: path of the array, slot. -/
def place (m : Mem K V) (k : K) (p : List (Fin 16)) (s : Slot) (L : Nat) : Nat → Option (List (Fin 16) × Nat)
  | 0 => none
  | n + 1 => some (p ++ pathOf dig k n L, rank (hdr dig m k n L s).pm (dig k (L + n)))

theorem repr_sub {m : Mem K V} {o : Own} (k : K) : ∀ (n L : Nat) (p : List (Fin 16)) (s : Slot) (t : Node K V),
    Repr fl m o p s t → Repr fl m o (p ++ pathOf dig k n L) (hdr dig m k n L s) (sub dig k n L t) := by
  intro n
  induction n with
  | zero => intro L p s t h; simpa [pathOf, hdr, sub] using h
  | succ n ih =>
    intro L p s t h
    cases t with
    | empty => simp [sub, Repr]
    | leaf _ _ => simp [sub, Repr]
    | branch c =>
      have := ih (L + 1) (p ++ [dig k L]) _ _ (h.2.2 (dig k L)).2.2
      simpa [pathOf, hdr, sub] using this

theorem uses_sub {m : Mem K V} (k : K) (x : Nat) : ∀ (n L : Nat) (s : Slot) (t : Node K V),
    Uses fl m x (hdr dig m k n L s) (sub dig k n L t) → Uses fl m x s t := by
  intro n
  induction n with
  | zero => intro L s t h; simpa [hdr, sub] using h
  | succ n ih =>
    intro L s t h
    cases t with
    | empty => exact absurd h (by simp [sub, Uses])
    | leaf _ _ => exact absurd h (by simp [sub, Uses])
    | branch c => exact Or.inr ⟨dig k L, ih (L + 1) _ _ h⟩

theorem not_prefix_sibling {p q r : List (Fin 16)} {d d' : Fin 16} (h : d ≠ d') (h1 : p ++ [d] <+: r) (h2 : p ++ d' :: q <+: r) : False := by
  obtain ⟨a, rfl⟩ := h1
  obtain ⟨b, hb⟩ := h2
  simp at hb
  exact h hb.1.symm

/-- Replacing a branch of the route replaces the branch in the tree. The memory
    of everything outside that branch stays, apart from the slot of its header. -/
theorem repr_put {m m' : Mem K V} {o o' : Own} (k : K) (x : Node K V) (hx : isBranch x) :
    ∀ (n L : Nat) (p : List (Fin 16)) (s s' : Slot) (t : Node K V),
    Repr fl m o p s t → onRoute dig k n L t → isBranch (sub dig k n L t) → (n ≠ 0 → s' = s) →
    (∀ y, Uses fl m y s t → p ++ pathOf dig k n L <+: (o y).2 ∨ Keep m m' o o' (place dig m k p s L n) y) →
    (∀ h', (n = 0 → h' = s') →
      (n ≠ 0 → h' = m'.slot (hdr dig m k (n - 1) L s).ptr (rank (hdr dig m k (n - 1) L s).pm (dig k (L + (n - 1))))) →
      Repr fl m' o' (p ++ pathOf dig k n L) h' x) →
    Repr fl m' o' p s' (put dig k x n L t) := by
  intro n
  induction n with
  | zero =>
    intro L p s s' t _ _ _ _ _ h
    simpa [pathOf, put] using h s' (fun _ => rfl) (fun h => absurd rfl h)
  | succ n ih =>
    intro L p s s' t hr hon hb hs hk hx'
    cases t with
    | empty => exact absurd hon (by simp [onRoute])
    | leaf _ _ => exact absurd hon (by simp [onRoute])
    | branch c =>
      have e := hs (by omega); subst e
      have hon' : onRoute dig k n (L + 1) (c (dig k L)) := by simpa [onRoute] using hon
      have hcb : isBranch (c (dig k L)) := by
        cases n with
        | zero => simpa [sub] using hb
        | succ n =>
          cases hc : c (dig k L) with
          | branch _ => trivial
          | empty => rw [hc] at hon'; exact absurd hon' (by simp [onRoute])
          | leaf _ _ => rw [hc] at hon'; exact absurd hon' (by simp [onRoute])
      have h0 : Keep m m' o o' (place dig m k p s' L (n + 1)) s'.ptr := by
        rcases hk s'.ptr (Or.inl rfl) with h | h
        · rw [hr.1] at h
          have := h.length_le
          simp [pathOf] at this
          omega
        · exact h
      have h1 := h0.2.2 (by rw [hr.1])
      have hput : put dig k x (n + 1) L (branch c) = branch (upd c (dig k L) (put dig k x n (L + 1) (c (dig k L)))) := rfl
      have hpb : isBranch (put dig k x n (L + 1) (c (dig k L))) := by
        cases n with
        | zero => exact hx
        | succ n => obtain ⟨c', hc'⟩ := put_branch dig k x n (L + 1) _ hon'; rw [hc']; trivial
      rw [hput]
      refine ⟨h0.1.trans hr.1, h1.1.trans hr.2.1, fun d => ?_⟩
      by_cases hd : d = dig k L
      · subst hd
        simp only [upd, if_true]
        have hpm : s'.pm (dig k L) = true := (hr.2.2 _).1.2 (by intro e; rw [e] at hcb; exact hcb)
        refine ⟨⟨fun _ e => by rw [e] at hpb; exact hpb, fun _ => hpm⟩, ?_, ?_⟩
        · constructor
          · intro h
            have := (hr.2.2 _).2.1.1 h
            cases hc : c (dig k L) <;> rw [hc] at this hcb
            · exact absurd this (by simp [isLeaf])
            · exact absurd hcb (by simp [isBranch])
            · exact absurd this (by simp [isLeaf])
          · intro h
            cases hc : put dig k x n (L + 1) (c (dig k L)) <;> rw [hc] at h hpb
            · exact absurd h (by simp [isLeaf])
            · exact absurd hpb (by simp [isBranch])
            · exact absurd h (by simp [isLeaf])
        · apply ih (L + 1) (p ++ [dig k L]) (m.slot s'.ptr (rank s'.pm (dig k L))) _ _ (hr.2.2 _).2.2 hon'
          · simpa [sub] using hb
          · intro hn
            rcases h1.2 (rank s'.pm (dig k L)) (rank_cap fl hr hpm) with ⟨q, hq, ho⟩ | h
            · rw [hr.1] at ho
              have ho' := congrArg (fun y => y.2.length) ho
              simp only [place, Option.some.injEq, Prod.mk.injEq] at hq
              rw [← hq.1] at ho'
              simp [pathOf_length] at ho'
              omega
            · exact h
          · intro y hy
            have hpre := uses_owner fl _ _ _ (hr.2.2 (dig k L)).2.2 y hy
            rcases hk y (Or.inr ⟨_, hy⟩) with h | h
            · left; simpa [pathOf] using h
            · right
              cases n with
              | zero =>
                refine ⟨h.1, h.2.1, fun hz => ⟨(h.2.2 hz).1, fun i hi => ?_⟩⟩
                rcases (h.2.2 hz).2 i hi with ⟨q, hq, ho⟩ | h
                · simp only [place, Option.some.injEq, Prod.mk.injEq, pathOf] at hq
                  rw [ho, ← hq.1] at hpre
                  have := hpre.length_le
                  simp at this
                  omega
                · exact Or.inr h
              | succ n =>
                have e1 : L + 1 + n = L + (n + 1) := by omega
                simpa [place, pathOf, hdr, e1] using h
          · intro h' h1' h2
            have := hx' h' (fun h => by omega) ?_
            · simpa [pathOf] using this
            · intro _
              cases n with
              | zero => simpa [hdr] using h1' rfl
              | succ n =>
                have := h2 (by omega)
                have e1 : L + 1 + n = L + (n + 1) := by omega
                simpa [hdr, e1] using this
      · have hud : upd c (dig k L) (put dig k x n (L + 1) (c (dig k L))) d = c d := by simp [upd, hd]
        rw [hud]
        refine ⟨(hr.2.2 d).1, (hr.2.2 d).2.1, ?_⟩
        by_cases hce : c d = empty
        · rw [hce]; trivial
        have hpm : s'.pm d = true := (hr.2.2 d).1.2 hce
        have hpm' : s'.pm (dig k L) = true := (hr.2.2 _).1.2 (by intro e; rw [e] at hcb; exact hcb)
        have hslot : m'.slot s'.ptr (rank s'.pm d) = m.slot s'.ptr (rank s'.pm d) := by
          rcases h1.2 (rank s'.pm d) (rank_cap fl hr hpm) with ⟨q, hq, ho⟩ | h
          · rw [hr.1] at ho
            have ho' := congrArg (fun y => y.2.length) ho
            simp only [place, Option.some.injEq, Prod.mk.injEq] at hq
            rw [← hq.1] at ho'
            simp [pathOf_length] at ho'
            subst ho'
            have := hq.2
            simp [hdr] at this
            exact absurd this.symm (rank_ne hd hpm hpm')
          · exact h
        rw [hslot]
        apply (repr_keep fl _ _ _ (hr.2.2 d).2.2 _).1
        intro y hy
        have hpre := uses_owner fl _ _ _ (hr.2.2 d).2.2 y hy
        rcases hk y (Or.inr ⟨d, hy⟩) with h | h
        · rw [pathOf] at h
          exact absurd (not_prefix_sibling hd hpre h) (by simp)
        · refine ⟨h.1, h.2.1, fun hz => ⟨(h.2.2 hz).1, fun i hi => Or.inr ?_⟩⟩
          rcases (h.2.2 hz).2 i hi with ⟨q, hq, ho⟩ | h
          · exfalso
            simp only [place, Option.some.injEq, Prod.mk.injEq] at hq
            rw [ho, ← hq.1] at hpre
            cases n with
            | zero => have := hpre.length_le; simp [pathOf] at this; omega
            | succ n =>
              rw [pathOf] at hpre
              exact not_prefix_sibling hd hpre (List.prefix_refl _)
          · exact h

/-! ### one branch of the route changes -/

theorem repr_upd {m m' : Mem K V} {o o' : Own} {P : List (Fin 16)} {s s' : Slot} {c : Fin 16 → Node K V} {d : Fin 16} {y : Node K V}
    (hr : Repr fl m o P s (branch c)) (ho : o' s'.ptr = (false, P)) (hcap : m'.cap s'.ptr = capOf P (cnt s'.pm))
    (hbits : ∀ q, q ≠ d → s'.pm q = s.pm q ∧ s'.tm q = s.tm q) (hp : s'.pm d = true ↔ y ≠ empty) (ht : s'.tm d = true ↔ isLeaf y)
    (hs : ∀ q, q ≠ d → s.pm q = true → m'.slot s'.ptr (rank s'.pm q) = m.slot s.ptr (rank s.pm q))
    (hk : ∀ q, q ≠ d → ∀ x, Uses fl m x (m.slot s.ptr (rank s.pm q)) (c q) → Keep m m' o o' none x)
    (hy : Repr fl m' o' (P ++ [d]) (m'.slot s'.ptr (rank s'.pm d)) y) :
    Repr fl m' o' P s' (branch (upd c d y)) := by
  refine ⟨ho, hcap, fun q => ?_⟩
  by_cases hq : q = d
  · subst hq
    simp only [upd, if_true]
    exact ⟨hp, ht, hy⟩
  · have hu : upd c d y q = c q := by simp [upd, hq]
    rw [hu, (hbits q hq).1, (hbits q hq).2]
    refine ⟨(hr.2.2 q).1, (hr.2.2 q).2.1, ?_⟩
    by_cases hce : c q = empty
    · rw [hce]; trivial
    have hpm : s.pm q = true := (hr.2.2 q).1.2 hce
    have := hs q hq hpm
    rw [this]
    exact (repr_keep fl _ _ _ (hr.2.2 q).2.2 (hk q hq)).1

/-- Header of the level-`j` branch on the route of `k`. -/
abbrev H (m : Mem K V) (k : K) (j : Nat) : Slot := hdr dig m k j 0 m.root

/-- Where the header of the level-`D` branch is kept, afterwards. -/
def head (m m' : Mem K V) (k : K) (D : Nat) : Slot :=
  if D = 0 then m'.root else m'.slot (H dig m k (D - 1)).ptr (rank (H dig m k (D - 1)).pm (dig k (D - 1)))

/-- The frame clauses: arrays and boxes of the container stay as they are, except
    the header of the branch at level `D`, the arrays of levels `D` to `D1` and
    the value in box `b`. -/
structure Frame (m m' : Mem K V) (o : Own) (t : Node K V) (k : K) (D D1 : Nat) (b : Option Nat) : Prop where
  boxes : ∀ x, Uses fl m x m.root t → (o x).1 = true → m'.bkey x = m.bkey x ∧ (some x ≠ b → m'.bval x = m.bval x)
  slots : ∀ x, Uses fl m x m.root t → (o x).1 = false → (∀ j, D ≤ j → j ≤ D1 → x ≠ (H dig m k j).ptr) → m'.cap x = m.cap x ∧
    ∀ i, i < m.cap x → (D ≠ 0 ∧ x = (H dig m k (D - 1)).ptr ∧ i = rank (H dig m k (D - 1)).pm (dig k (D - 1))) ∨ m'.slot x i = m.slot x i
  root : D ≠ 0 → m'.root = m.root

theorem route_le {k : K} {t : Node K V} {D : Nat} (hr : onRoute dig k (D + 1) 0 t) {j : Nat} (h : j ≤ D) :
    ∃ c, sub dig k j 0 t = branch c := route_branch dig (onRoute_mono dig k (D + 1) (j + 1) 0 t hr (by omega)) j (Nat.le_refl j)

/-- Owner of the array of a route level. -/
theorem owner_route {m : Mem K V} {o : Own} {t : Node K V} (h : Repr fl m o [] m.root t) (k : K) {j : Nat} {c : Fin 16 → Node K V}
    (hc : sub dig k j 0 t = branch c) : o (H dig m k j).ptr = (false, pathOf dig k j 0) := by
  have := repr_sub dig fl k j 0 [] m.root t h
  rw [hc] at this
  simpa using this.1

theorem prefix_path (k : K) {i j : Nat} (h : i ≤ j) : pathOf dig k i 0 <+: pathOf dig k j 0 := by
  induction j with
  | zero => have : i = 0 := by omega
            subst this; exact List.prefix_refl _
  | succ j ih =>
    by_cases e : i = j + 1
    · subst e; exact List.prefix_refl _
    · rw [pathOf_succ]
      exact List.IsPrefix.trans (ih (by omega)) (List.prefix_append _ _)

/-- The tree after a call that changes one entry of one branch of the route. -/
theorem step {m m' : Mem K V} {o o' : Own} {t : Node K V} {k : K} {D D1 : Nat} {b : Option Nat} {c : Fin 16 → Node K V} {y : Node K V}
    (hr : Repr fl m o [] m.root t) (hon : onRoute dig k (D1 + 1) 0 t) (hD : D ≤ D1) (hc : sub dig k D 0 t = branch c)
    (hf : Frame dig fl m m' o t k D D1 b)
    (hb : ∀ x, Uses fl m x m.root t → (o x).1 = true → b = some x → pathOf dig k (D + 1) 0 <+: (o x).2)
    (ho : ∀ x, Uses fl m x m.root t → ¬ pathOf dig k (D + 1) 0 <+: (o x).2 → x ≠ (H dig m k D).ptr → o' x = o x)
    (hown : o' (head dig m m' k D).ptr = (false, pathOf dig k D 0))
    (hcap : m'.cap (head dig m m' k D).ptr = capOf (pathOf dig k D 0) (cnt (head dig m m' k D).pm))
    (hbits : ∀ q, q ≠ dig k D → (head dig m m' k D).pm q = (H dig m k D).pm q ∧ (head dig m m' k D).tm q = (H dig m k D).tm q)
    (hp : (head dig m m' k D).pm (dig k D) = true ↔ y ≠ empty) (ht : (head dig m m' k D).tm (dig k D) = true ↔ isLeaf y)
    (hs : ∀ q, q ≠ dig k D → (H dig m k D).pm q = true →
      m'.slot (head dig m m' k D).ptr (rank (head dig m m' k D).pm q) = m.slot (H dig m k D).ptr (rank (H dig m k D).pm q))
    (hy : Repr fl m' o' (pathOf dig k (D + 1) 0) (m'.slot (head dig m m' k D).ptr (rank (head dig m m' k D).pm (dig k D))) y) :
    Repr fl m' o' [] m'.root (put dig k y (D + 1) 0 t) := by
  have hput : put dig k y (D + 1) 0 t = put dig k (branch (upd c (dig k D) y)) D 0 t := by
    have := put_succ dig k y D 0 t c hc
    simpa using this
  have hps : pathOf dig k (D + 1) 0 = pathOf dig k D 0 ++ [dig k D] := by simpa using pathOf_succ dig k D 0
  have hrs := repr_sub dig fl k D 0 [] m.root t hr
  rw [hc] at hrs
  simp only [List.nil_append] at hrs
  have hoD : o (H dig m k D).ptr = (false, pathOf dig k D 0) := owner_route dig fl hr k hc
  -- what is not at or below the branch stays
  have hkeep : ∀ x, Uses fl m x m.root t → ¬ pathOf dig k (D + 1) 0 <+: (o x).2 → x ≠ (H dig m k D).ptr →
      Keep m m' o o' (place dig m k [] m.root 0 D) x := by
    intro x hx hn hne
    refine ⟨ho x hx hn hne, fun hz => ?_, fun hz => ?_⟩
    · have := hf.boxes x hx hz
      exact ⟨this.1, this.2 fun e => hn (hb x hx hz e.symm)⟩
    · have hne' : ∀ j, D ≤ j → j ≤ D1 → x ≠ (H dig m k j).ptr := by
        intro j h1 h2 e
        by_cases hj : j = D
        · subst hj; exact hne e
        · obtain ⟨c', hc'⟩ := route_le dig hon h2
          have := owner_route dig fl hr k hc'
          rw [← e] at this
          rw [this] at hn
          exact hn (prefix_path dig k (by omega))
      have := hf.slots x hx hz hne'
      refine ⟨this.1, fun i hi => ?_⟩
      rcases this.2 i hi with ⟨h0, hx', hi⟩ | h
      · left
        cases D with
        | zero => exact absurd rfl h0
        | succ D =>
          obtain ⟨c', hc'⟩ := route_le dig hon (show D ≤ D1 by omega)
          have := owner_route dig fl hr k hc'
          refine ⟨_, ?_, hx' ▸ this⟩
          subst hi
          simp [place]
      · exact Or.inr h
  rw [hput]
  apply repr_put dig fl k (branch (upd c (dig k D) y)) trivial D 0 [] m.root m'.root t hr (onRoute_mono dig k _ D 0 t hon (by omega))
  · rw [hc]; trivial
  · exact hf.root
  · intro x hx
    by_cases hn : pathOf dig k D 0 <+: (o x).2
    · left; simpa using hn
    · right
      refine hkeep x hx (fun h => hn (List.IsPrefix.trans (prefix_path dig k (by omega)) h)) ?_
      intro e; subst e; rw [hoD] at hn; exact hn (List.prefix_refl _)
  · intro h' h1 h2
    have e : h' = head dig m m' k D := by
      unfold head
      split
      · rename_i h; exact h1 h
      · rename_i h; have := h2 h; simpa using this
    subst e
    simp only [List.nil_append]
    refine repr_upd fl hrs hown hcap hbits hp ht hs ?_ (hps ▸ hy)
    intro q hq x hx
    have hpre := uses_owner fl _ _ _ (hrs.2.2 q).2.2 x hx
    have hux : Uses fl m x m.root t := by
      apply uses_sub dig fl k x D 0
      rw [hc]; exact Or.inr ⟨q, hx⟩
    have hn : ¬ pathOf dig k (D + 1) 0 <+: (o x).2 := by
      rw [hps]; intro h; exact not_prefix_sibling hq hpre h
    have hlt : ∀ r, o x = (false, r) → ¬ r <+: pathOf dig k D 0 := by
      intro r h hle
      rw [h] at hpre
      have h1 := hpre.length_le
      have h2 := hle.length_le
      simp at h1; omega
    have := hkeep x hux hn (fun e => hlt _ (e ▸ hoD) (List.prefix_refl _))
    refine ⟨this.1, this.2.1, fun hz => ⟨(this.2.2 hz).1, fun i hi => ?_⟩⟩
    rcases (this.2.2 hz).2 i hi with ⟨r, hpl, hor⟩ | h
    · exfalso
      cases D with
      | zero => simp [place] at hpl
      | succ D =>
        simp only [place, Option.some.injEq, Prod.mk.injEq, List.nil_append] at hpl
        exact hlt r hor (hpl.1 ▸ prefix_path dig k (by omega))
    · exact Or.inr h

/-! ### the contracts, clause by clause -/

/-- D is the level where the key's route ends (cx.node_wf). -/
def Route (m : Mem K V) (k : K) (D : Nat) : Prop :=
  ∀ j, j < D → (H dig m k j).pm (dig k j) = true ∧ (H dig m k j).tm (dig k j) = false

/-- spec.new_leaf -/
structure NewLeaf (m m' : Mem K V) (t : Node K V) (k : K) (v : V) (s : Slot) : Prop where
  key : leafKey fl m' s = k
  val : m'.bval s.ptr = v
  own : fl.box = true → ¬ Uses fl m s.ptr m.root t
  clean : fl.inSlot = none → s.pm = none16 ∧ s.tm = none16

/-- The branches a split creates, from level `L` on. -/
def Chain (m m' : Mem K V) (t : Node K V) (k : K) (v : V) (k' : K) (old : Slot) : Nat → Nat → Slot → List Nat → Prop
  | 0, L, s, used =>
      s.pm = setBit (setBit none16 (dig k' L) true) (dig k L) true ∧ s.tm = s.pm ∧
      ¬ Uses fl m s.ptr m.root t ∧ s.ptr ∉ used ∧ m'.cap s.ptr = 4 ∧
      NewLeaf fl m m' t k v (m'.slot s.ptr (rank s.pm (dig k L))) ∧
      (fl.box = true → (m'.slot s.ptr (rank s.pm (dig k L))).ptr ∉ used ∧ (m'.slot s.ptr (rank s.pm (dig k L))).ptr ≠ s.ptr) ∧
      (m'.slot s.ptr (rank s.pm (dig k' L))).ptr = old.ptr ∧
      (fl.inSlot ≠ none → (m'.slot s.ptr (rank s.pm (dig k' L))).pm = old.pm ∧ (m'.slot s.ptr (rank s.pm (dig k' L))).tm = old.tm) ∧
      (fl.inSlot = none → (m'.slot s.ptr (rank s.pm (dig k' L))).pm = none16 ∧ (m'.slot s.ptr (rank s.pm (dig k' L))).tm = none16)
  | n + 1, L, s, used =>
      s.pm = setBit none16 (dig k L) true ∧ s.tm = none16 ∧
      ¬ Uses fl m s.ptr m.root t ∧ s.ptr ∉ used ∧ m'.cap s.ptr = 4 ∧
      Chain m m' t k v k' old n (L + 1) (m'.slot s.ptr 0) (s.ptr :: used)

/-- spec.insert_post. `t` and `o` only say which addresses the container uses. -/
inductive MIns (m m' : Mem K V) (o : Own) (t : Node K V) (k : K) (v : V) : Prop
  | miss (D : Nat) :
      Route dig m k D →
      (H dig m k D).pm (dig k D) = false →
      (head dig m m' k D).pm = setBit (H dig m k D).pm (dig k D) true →
      (head dig m m' k D).tm = setBit (H dig m k D).tm (dig k D) true →
      ((head dig m m' k D).ptr = (H dig m k D).ptr ∨ D ≠ 0 ∧ ¬ Uses fl m (head dig m m' k D).ptr m.root t) →
      m'.cap (head dig m m' k D).ptr = (if D = 0 then 16 else round4 (cnt (H dig m k D).pm + 1)) →
      (∀ q, (H dig m k D).pm q = true → q ≠ dig k D →
        m'.slot (head dig m m' k D).ptr (rank (head dig m m' k D).pm q) = m.slot (H dig m k D).ptr (rank (H dig m k D).pm q)) →
      NewLeaf fl m m' t k v (m'.slot (head dig m m' k D).ptr (rank (head dig m m' k D).pm (dig k D))) →
      (fl.box = true → (m'.slot (head dig m m' k D).ptr (rank (head dig m m' k D).pm (dig k D))).ptr ≠ (head dig m m' k D).ptr) →
      Frame dig fl m m' o t k D D none →
      m'.len = m.len + 1 → m'.dep = m.dep + D → MIns m m' o t k v
  | hit (D : Nat) :
      Route dig m k D →
      (H dig m k D).pm (dig k D) = true → (H dig m k D).tm (dig k D) = true →
      leafKey fl m (H dig m k (D + 1)) = k →
      head dig m m' k D = H dig m k D →
      m'.cap (H dig m k D).ptr = m.cap (H dig m k D).ptr →
      (∀ i, i < m.cap (H dig m k D).ptr → m'.slot (H dig m k D).ptr i = m.slot (H dig m k D).ptr i) →
      m'.bkey (H dig m k (D + 1)).ptr = m.bkey (H dig m k (D + 1)).ptr →
      m'.bval (H dig m k (D + 1)).ptr = v →
      Frame dig fl m m' o t k D D (some (H dig m k (D + 1)).ptr) →
      m'.len = m.len → m'.dep = m.dep → MIns m m' o t k v
  | conflict (D n : Nat) :
      Route dig m k D →
      (H dig m k D).pm (dig k D) = true → (H dig m k D).tm (dig k D) = true →
      leafKey fl m (H dig m k (D + 1)) ≠ k →
      agree dig (leafKey fl m (H dig m k (D + 1))) k 0 (D + 1 + n) →
      dig (leafKey fl m (H dig m k (D + 1))) (D + 1 + n) ≠ dig k (D + 1 + n) →
      (head dig m m' k D).pm = (H dig m k D).pm →
      (head dig m m' k D).tm = setBit (H dig m k D).tm (dig k D) false →
      (head dig m m' k D).ptr = (H dig m k D).ptr →
      m'.cap (H dig m k D).ptr = m.cap (H dig m k D).ptr →
      (∀ i, i < m.cap (H dig m k D).ptr → i ≠ rank (H dig m k D).pm (dig k D) → m'.slot (H dig m k D).ptr i = m.slot (H dig m k D).ptr i) →
      Chain dig fl m m' t k v (leafKey fl m (H dig m k (D + 1))) (H dig m k (D + 1)) n (D + 1)
        (m'.slot (H dig m k D).ptr (rank (H dig m k D).pm (dig k D))) [] →
      Frame dig fl m m' o t k D D none →
      m'.len = m.len + 1 → m'.dep = m.dep - D + 2 * (D + 1 + n) → MIns m m' o t k v

/-- spec.delete_post -/
inductive MDel (m m' : Mem K V) (o : Own) (t : Node K V) (k : K) : Prop
  | absent (D : Nat) :
      Route dig m k D →
      (H dig m k D).pm (dig k D) = false ∨
        ((H dig m k D).pm (dig k D) = true ∧ (H dig m k D).tm (dig k D) = true ∧ leafKey fl m (H dig m k (D + 1)) ≠ k) →
      m'.root = m.root →
      (∀ x, Uses fl m x m.root t → (o x).1 = true → m'.bkey x = m.bkey x ∧ m'.bval x = m.bval x) →
      (∀ x, Uses fl m x m.root t → (o x).1 = false → m'.cap x = m.cap x ∧ ∀ i, i < m.cap x → m'.slot x i = m.slot x i) →
      m'.len = m.len → m'.dep = m.dep → MDel m m' o t k
  | plain (D : Nat) :
      Route dig m k D →
      (H dig m k D).pm (dig k D) = true → (H dig m k D).tm (dig k D) = true →
      leafKey fl m (H dig m k (D + 1)) = k →
      ¬ (D ≠ 0 ∧ cnt (setBit (H dig m k D).pm (dig k D) false) = 1 ∧
        setBit (H dig m k D).pm (dig k D) false = setBit (H dig m k D).tm (dig k D) false) →
      (head dig m m' k D).pm = setBit (H dig m k D).pm (dig k D) false →
      (head dig m m' k D).tm = setBit (H dig m k D).tm (dig k D) false →
      ((head dig m m' k D).ptr = (H dig m k D).ptr ∨ D ≠ 0 ∧ ¬ Uses fl m (head dig m m' k D).ptr m.root t) →
      m'.cap (head dig m m' k D).ptr = (if D = 0 then 16 else round4 (cnt (setBit (H dig m k D).pm (dig k D) false))) →
      (∀ q, (H dig m k D).pm q = true → q ≠ dig k D →
        m'.slot (head dig m m' k D).ptr (rank (head dig m m' k D).pm q) = m.slot (H dig m k D).ptr (rank (H dig m k D).pm q)) →
      Frame dig fl m m' o t k D D none →
      m'.len = m.len - 1 → m'.dep = m.dep - D → MDel m m' o t k
  | collapse (D E : Nat) (d : Fin 16) :
      Route dig m k D →
      (H dig m k D).pm (dig k D) = true → (H dig m k D).tm (dig k D) = true →
      leafKey fl m (H dig m k (D + 1)) = k →
      cnt (setBit (H dig m k D).pm (dig k D) false) = 1 →
      setBit (H dig m k D).pm (dig k D) false = setBit (H dig m k D).tm (dig k D) false →
      E < D →
      (∀ j, E < j → j < D → cnt (H dig m k j).pm = 1) →
      (E = 0 ∨ cnt (H dig m k E).pm ≠ 1) →
      (H dig m k D).pm d = true → d ≠ dig k D →
      (head dig m m' k E).pm = (H dig m k E).pm →
      (head dig m m' k E).tm = setBit (H dig m k E).tm (dig k E) true →
      (head dig m m' k E).ptr = (H dig m k E).ptr →
      m'.cap (H dig m k E).ptr = m.cap (H dig m k E).ptr →
      (∀ i, i < m.cap (H dig m k E).ptr → i ≠ rank (H dig m k E).pm (dig k E) → m'.slot (H dig m k E).ptr i = m.slot (H dig m k E).ptr i) →
      m'.slot (H dig m k E).ptr (rank (H dig m k E).pm (dig k E)) = m.slot (H dig m k D).ptr (rank (H dig m k D).pm d) →
      Frame dig fl m m' o t k E D none →
      m'.len = m.len - 1 → m'.dep = m.dep - D - (D - E) → MDel m m' o t k

/-! ### they refine the contracts on trees -/

theorem onRoute_next {k : K} : ∀ (n L : Nat) (t : Node K V) (c : Fin 16 → Node K V), onRoute dig k n L t → sub dig k n L t = branch c →
    onRoute dig k (n + 1) L t := by
  intro n
  induction n with
  | zero => intro L t c _ hc; simp only [sub] at hc; subst hc; simp [onRoute]
  | succ n ih =>
    intro L t c hr hc
    cases t with
    | empty => exact absurd hr (by simp [onRoute])
    | leaf _ _ => exact absurd hr (by simp [onRoute])
    | branch c' =>
      have hr' : onRoute dig k n (L + 1) (c' (dig k L)) := by simpa [onRoute] using hr
      have := ih (L + 1) _ c hr' (by simpa [sub] using hc)
      simpa [onRoute] using this

/-- The route in memory is the route in the tree. -/
theorem route_tree {m : Mem K V} {o : Own} {t : Node K V} {k : K} (hr : Repr fl m o [] m.root t) (ht : isBranch t) :
    ∀ D, Route dig m k D → ∃ c, onRoute dig k (D + 1) 0 t ∧ sub dig k D 0 t = branch c ∧
      Repr fl m o (pathOf dig k D 0) (H dig m k D) (branch c) := by
  intro D
  induction D with
  | zero =>
    intro _
    cases t with
    | empty => exact absurd ht (by simp [isBranch])
    | leaf _ _ => exact absurd ht (by simp [isBranch])
    | branch c => exact ⟨c, by simp [onRoute], by simp [sub], by simpa [pathOf, hdr] using hr⟩
  | succ D ih =>
    intro h
    obtain ⟨c, h1, h2, h3⟩ := ih fun j hj => h j (by omega)
    have hb := h D (by omega)
    have he : c (dig k D) ≠ empty := (h3.2.2 _).1.1 hb.1
    have hl : ¬ isLeaf (c (dig k D)) := fun hl => by
      have := (h3.2.2 _).2.1.2 hl
      rw [hb.2] at this; exact absurd this (by simp)
    have hs : sub dig k (D + 1) 0 t = c (dig k D) := sub_of_branch dig h2
    have hrs := repr_sub dig fl k (D + 1) 0 [] m.root t hr
    rw [hs] at hrs
    cases hc : c (dig k D) with
    | empty => exact absurd hc he
    | leaf _ _ => rw [hc] at hl; exact absurd trivial hl
    | branch c' =>
      rw [hc] at hs hrs
      exact ⟨c', onRoute_next dig _ _ _ _ h1 hs, hs, by simpa using hrs⟩

/-- The leaf at the end of the route. -/
theorem route_leaf {m : Mem K V} {o : Own} {t : Node K V} {k : K} {D : Nat} {c : Fin 16 → Node K V} (hr : Repr fl m o [] m.root t)
    (hc : sub dig k D 0 t = branch c)
    (hb : (H dig m k D).tm (dig k D) = true) : ∃ w, sub dig k (D + 1) 0 t = leaf (leafKey fl m (H dig m k (D + 1))) w ∧
      c (dig k D) = leaf (leafKey fl m (H dig m k (D + 1))) w ∧
      Repr fl m o (pathOf dig k (D + 1) 0) (H dig m k (D + 1)) (leaf (leafKey fl m (H dig m k (D + 1))) w) := by
  have h3 := repr_sub dig fl k D 0 [] m.root t hr
  rw [hc] at h3
  have hl := (h3.2.2 _).2.1.1 hb
  have hs : sub dig k (D + 1) 0 t = c (dig k D) := sub_of_branch dig hc
  have h4 := repr_sub dig fl k (D + 1) 0 [] m.root t hr
  rw [hs] at h4
  cases hcd : c (dig k D) with
  | empty => rw [hcd] at hl; exact absurd hl (by simp [isLeaf])
  | branch _ => rw [hcd] at hl; exact absurd hl (by simp [isLeaf])
  | leaf k' w =>
    rw [hcd] at h4 hs
    have e : leafKey fl m (H dig m k (D + 1)) = k' := h4.1
    rw [e]
    exact ⟨w, hs, rfl, by simpa using h4⟩

def own1 (o : Own) (x : Nat) (y : Bool × List (Fin 16)) : Own := fun z => if z = x then y else o z

theorem round4_1 : round4 1 = 4 := by decide
theorem round4_2 : round4 2 = 4 := by decide

theorem uses_of_sub {m : Mem K V} {t : Node K V} {k : K} {n : Nat} {x : Nat} {u : Node K V} (hs : sub dig k n 0 t = u)
    (h : Uses fl m x (H dig m k n) u) : Uses fl m x m.root t := uses_sub dig fl k x n 0 m.root t (hs ▸ h)

theorem pair_repr {m m' : Mem K V} {t : Node K V} {k : K} {v : V} {k' : K} {w : V} {old : Slot}
    (hk : ∀ s : Slot, s.ptr = old.ptr → (fl.inSlot ≠ none → s.pm = old.pm ∧ s.tm = old.tm) → leafKey fl m' s = k')
    (hw : m'.bval old.ptr = w) {L : Nat} {s : Slot} {used : List Nat} {o' : Own} {p : List (Fin 16)} (hp : p ≠ [])
    (hd : dig k' L ≠ dig k L) (hch : Chain dig fl m m' t k v k' old 0 L s used)
    (h1 : o' s.ptr = (false, p))
    (h2 : fl.box = true → o' (m'.slot s.ptr (rank s.pm (dig k L))).ptr = (true, p ++ [dig k L]))
    (h3 : fl.box = true → o' old.ptr = (true, p ++ [dig k' L])) :
    Repr fl m' o' p s (split dig k v k' w 0 L) := by
  obtain ⟨hpm, htm, hfr, hus, hcap, hnl, hnb, hop, hos, hoc⟩ := hch
  refine ⟨h1, ?_, fun d => ?_⟩
  · rw [hcap, hpm, cnt_two hd]; simp [capOf, hp, round4_2]
  · by_cases e : d = dig k L
    · subst e
      simp only [upd, if_true, htm]
      have hb : s.pm (dig k L) = true := by rw [hpm]; simp [setBit]
      refine ⟨by simp [hb], by simp [hb, isLeaf], hnl.key, hnl.val, h2, hnl.clean⟩
    · by_cases e' : d = dig k' L
      · subst e'
        simp only [upd, if_true, if_neg e, htm]
        have hb : s.pm (dig k' L) = true := by rw [hpm]; simp [setBit]
        refine ⟨by simp [hb], by simp [hb, isLeaf], hk _ hop hos, by rw [hop]; exact hw, fun hx => by rw [hop]; exact h3 hx, hoc⟩
      · have hb : s.pm d = false := by rw [hpm]; simp [setBit, e, e', none16]
        simp only [upd, if_neg e, if_neg e', htm]
        simp [hb, isLeaf, Repr]

theorem chain_repr {m m' : Mem K V} {t : Node K V} {k : K} {v : V} {k' : K} {w : V} {old : Slot}
    (hk : ∀ s : Slot, s.ptr = old.ptr → (fl.inSlot ≠ none → s.pm = old.pm ∧ s.tm = old.tm) → leafKey fl m' s = k')
    (hw : m'.bval old.ptr = w) (hold : fl.box = true → Uses fl m old.ptr m.root t) :
    ∀ (n L : Nat) (s : Slot) (used : List Nat) (o1 : Own) (p : List (Fin 16)), p ≠ [] →
      dig k' (L + n) ≠ dig k (L + n) → (fl.box = true → old.ptr ∉ used) →
      Chain dig fl m m' t k v k' old n L s used →
      ∃ o' : Own, (∀ x, x ∈ used ∨ (Uses fl m x m.root t ∧ (fl.box = true → x ≠ old.ptr)) → o' x = o1 x) ∧
        Repr fl m' o' p s (split dig k v k' w n L) := by
  intro n
  induction n with
  | zero =>
    rintro L s used o1 p hp hd hou hch
    obtain ⟨hpm, htm, hfr, hus, hcap, hnl, hnb, hop, hos, hoc⟩ := id hch
    have hd : dig k' L ≠ dig k L := by simpa using hd
    by_cases hb : fl.box = true
    · have ⟨hn1, hn2⟩ := hnb hb
      have hn3 := hnl.own hb
      have hou := hou hb
      have hold := hold hb
      have hso : s.ptr ≠ old.ptr := fun e => hfr (e ▸ hold)
      refine ⟨own1 (own1 (own1 o1 s.ptr (false, p)) (m'.slot s.ptr (rank s.pm (dig k L))).ptr (true, p ++ [dig k L])) old.ptr (true, p ++ [dig k' L]), ?_, ?_⟩
      · intro x hx
        have h1 : x ≠ old.ptr := by
          rcases hx with h | h
          · intro e; exact hou (e ▸ h)
          · exact h.2 hb
        have h2 : x ≠ s.ptr := by
          rcases hx with h | h
          · intro e; exact hus (e ▸ h)
          · intro e; exact hfr (e ▸ h.1)
        have h3 : x ≠ (m'.slot s.ptr (rank s.pm (dig k L))).ptr := by
          rcases hx with h | h
          · intro e; exact hn1 (e ▸ h)
          · intro e; exact hn3 (e ▸ h.1)
        simp [own1, h1, h2, h3]
      · refine pair_repr dig fl hk hw hp hd hch ?_ (fun _ => ?_) (fun _ => ?_)
        · simp only [own1]; rw [if_neg hso, if_neg (Ne.symm hn2)]; simp
        · simp only [own1]
          rw [if_neg (fun e => hn3 (by rw [e]; exact hold))]; simp
        · simp [own1]
    · refine ⟨own1 o1 s.ptr (false, p), fun x hx => ?_, ?_⟩
      · have h2 : x ≠ s.ptr := by
          rcases hx with h | h
          · intro e; exact hus (e ▸ h)
          · intro e; exact hfr (e ▸ h.1)
        simp [own1, h2]
      · exact pair_repr dig fl hk hw hp hd hch (by simp [own1]) (fun h => absurd h hb) (fun h => absurd h hb)
  | succ n ih =>
    rintro L s used o1 p hp hd hou ⟨hpm, htm, hfr, hus, hcap, hch⟩
    obtain ⟨o', h1, h2⟩ := ih (L + 1) (m'.slot s.ptr 0) (s.ptr :: used) (own1 o1 s.ptr (false, p)) (p ++ [dig k L]) (by simp)
      (by rwa [show L + 1 + n = L + (n + 1) from by omega]) (fun hb => by
        intro h
        rcases List.mem_cons.1 h with h | h
        · exact hfr (h ▸ hold hb)
        · exact hou hb h) hch
    refine ⟨o', fun x hx => ?_, ?_⟩
    · have hne : x ≠ s.ptr := by
        rcases hx with h | h
        · intro e; exact hus (e ▸ h)
        · intro e; exact hfr (e ▸ h.1)
      rw [h1 x (hx.imp (fun h => List.mem_cons_of_mem _ h) id)]
      simp [own1, hne]
    · refine ⟨?_, ?_, fun d => ?_⟩
      · rw [h1 s.ptr (Or.inl (by simp))]; simp [own1]
      · rw [hcap, hpm, cnt_one]; simp [capOf, hp, round4_1]
      · have hbr := isBranch_split dig k v k' w n (L + 1)
        by_cases e : d = dig k L
        · subst e
          rw [hpm, htm, rank_one]
          simp only [upd, if_true, setBit, none16]
          refine ⟨⟨fun _ e => by rw [e] at hbr; exact hbr, fun _ => by simp⟩, ⟨fun h => by simp at h, fun h => ?_⟩, h2⟩
          cases hc : split dig k v k' w n (L + 1) <;> rw [hc] at h hbr
          · exact absurd h (by simp [isLeaf])
          · exact absurd hbr (by simp [isBranch])
          · exact absurd h (by simp [isLeaf])
        · simp [upd, e, hpm, htm, setBit, none16, isLeaf, Repr]

theorem capOf_path (k : K) (D n : Nat) : capOf (pathOf dig k D 0) n = if D = 0 then 16 else round4 n := by
  cases D with
  | zero => simp [capOf, pathOf]
  | succ D => simp [capOf, pathOf]

theorem path_next (k : K) (D : Nat) : pathOf dig k (D + 1) 0 = pathOf dig k D 0 ++ [dig k D] := by
  simpa using pathOf_succ dig k D 0

theorem array_used {m : Mem K V} {t : Node K V} {k : K} {j : Nat} {c : Fin 16 → Node K V} (hc : sub dig k j 0 t = branch c) :
    Uses fl m (H dig m k j).ptr m.root t := uses_of_sub dig fl hc (Or.inl rfl)

theorem no_box {m : Mem K V} {o : Own} (hb : fl.box = false) : ∀ (t : Node K V) (p : List (Fin 16)) (s : Slot), Repr fl m o p s t →
    ∀ x, Uses fl m x s t → (o x).1 = false := by
  intro t
  induction t with
  | empty => intro p s _ x h; exact absurd h (by simp [Uses])
  | leaf k v => intro p s _ x h; have h := h.1; rw [hb] at h; exact absurd h (by simp)
  | branch c ih =>
    intro p s h x hu
    rcases hu with rfl | ⟨d, hu⟩
    · rw [h.1]
    · exact ih d _ _ (h.2.2 d).2.2 x hu

/-- What a call of `Set`, `Mod` or `Add` does to the memory, as its contract says,
    is what `Ins` says it does to the tree. -/
theorem ins_refines {m m' : Mem K V} {o : Own} {t : Node K V} {k : K} {v : V} (hr : Repr fl m o [] m.root t) (ht : isBranch t)
    (hi : MIns dig fl m m' o t k v) :
    ∃ t' o', Ins dig k v ⟨t, m.len, m.dep⟩ ⟨t', m'.len, m'.dep⟩ ∧ Repr fl m' o' [] m'.root t' := by
  cases hi with
  | miss D hR hp hpm htm hptr hcap hs hnl hnb hf hlen hdep =>
    obtain ⟨c, hon, hc, hrs⟩ := route_tree dig fl hr ht D hR
    have hce : c (dig k D) = empty := by
      apply Classical.byContradiction
      intro h
      have := (hrs.2.2 _).1.2 h
      rw [hp] at this; exact absurd this (by simp)
    have hau := array_used dig fl (m := m) hc
    refine ⟨put dig k (leaf k v) (D + 1) 0 t, (fun x => if fl.box = true ∧ x = (m'.slot (head dig m m' k D).ptr (rank (head dig m m' k D).pm (dig k D))).ptr
        then (true, pathOf dig k (D + 1) 0) else if x = (head dig m m' k D).ptr then (false, pathOf dig k D 0) else o x), ?_, ?_⟩
    · rw [hlen, hdep]
      exact Ins.miss ⟨t, m.len, m.dep⟩ D hon ((sub_of_branch dig hc).trans hce)
    · apply step dig fl (b := none) hr hon (Nat.le_refl D) hc hf
      · intro x _ _ h; exact absurd h (by simp)
      · intro x hx _ hne
        have h1 : ¬ (fl.box = true ∧ x = (m'.slot (head dig m m' k D).ptr (rank (head dig m m' k D).pm (dig k D))).ptr) := by
          rintro ⟨hb, e⟩; exact hnl.own hb (e ▸ hx)
        have h2 : x ≠ (head dig m m' k D).ptr := by
          intro e
          rcases hptr with h | h
          · exact hne (e.trans h)
          · exact h.2 (e ▸ hx)
        simp only [if_neg h1, if_neg h2]
      · have h1 : ¬ (fl.box = true ∧ (head dig m m' k D).ptr = (m'.slot (head dig m m' k D).ptr (rank (head dig m m' k D).pm (dig k D))).ptr) := by
          rintro ⟨hb, e⟩; exact hnb hb e.symm
        simp only [if_neg h1]; simp
      · rw [hcap, hpm, cnt_add hp, capOf_path]
      · intro q hq; rw [hpm, htm]; simp [setBit, hq]
      · rw [hpm]; simp [setBit]
      · rw [htm]; simp [setBit, isLeaf]
      · intro q hq hqs; exact hs q hqs hq
      · refine ⟨hnl.key, hnl.val, fun hb => ?_, hnl.clean⟩
        simp [hb]
  | hit D hR hp htb hkey hh hcap hs hbk hbv hf hlen hdep =>
    obtain ⟨c, hon, hc, hrs⟩ := route_tree dig fl hr ht D hR
    obtain ⟨w, hsl, hcl, hrl⟩ := route_leaf dig fl hr hc htb
    rw [hkey] at hsl hcl hrl
    refine ⟨put dig k (leaf k v) (D + 1) 0 t, o, ?_, ?_⟩
    · rw [hlen, hdep]; exact Ins.hit ⟨t, m.len, m.dep⟩ D w hon hsl
    · have hslot : m'.slot (head dig m m' k D).ptr (rank (head dig m m' k D).pm (dig k D)) = H dig m k (D + 1) := by
        rw [hh, hs _ (rank_cap fl hrs hp)]; have := hdr_succ dig m k D 0 m.root; simpa using this.symm
      apply step dig fl hr hon (Nat.le_refl D) hc hf
      · intro x hx hz h
        have h := Option.some.inj h
        subst h
        cases hb : fl.box with
        | true => rw [hrl.2.2.1 hb]; exact List.prefix_refl _
        | false => rw [no_box fl hb _ _ _ hr _ hx] at hz; exact absurd hz (by simp)
      · intro x _ _ _; rfl
      · rw [hh]; exact hrs.1
      · rw [hh, hcap]; exact hrs.2.1
      · intro q _; rw [hh]; exact ⟨rfl, rfl⟩
      · rw [hh]; simp [hp]
      · rw [hh]; simp [htb, isLeaf]
      · intro q _ hqs; rw [hh, hs _ (rank_cap fl hrs hqs)]
      · rw [hslot]
        refine ⟨?_, hbv, hrl.2.2.1, hrl.2.2.2⟩
        rw [leafKey_same fl fun _ => hbk]; exact hkey
  | conflict D n hR hp htb hkey hag hdg hpm htm hptr hcap hs hch hf hlen hdep =>
    obtain ⟨c, hon, hc, hrs⟩ := route_tree dig fl hr ht D hR
    obtain ⟨w, hsl, hcl, hrl⟩ := route_leaf dig fl hr hc htb
    have hold : fl.box = true → Uses fl m (H dig m k (D + 1)).ptr m.root t := fun hb => uses_of_sub dig fl hsl ⟨hb, rfl⟩
    have hbox := fun hb => hf.boxes _ (hold hb) (by rw [hrl.2.2.1 hb])
    obtain ⟨o', ho1, ho2⟩ := chain_repr dig fl (w := w) (old := H dig m k (D + 1)) (fun s hsp hsb => by
        cases hfi : fl.inSlot with
        | some f =>
          have := hsb (by simp [hfi])
          have e : s = H dig m k (D + 1) := by
            cases s; simp only at hsp this; rw [hsp, this.1, this.2]
          rw [e]; unfold leafKey; rw [hfi]
        | none =>
          have hb : fl.box = true := by
            cases hb : fl.box with
            | true => rfl
            | false => exact absurd hfi (fl.ins hb)
          unfold leafKey; rw [hfi]; simp only; rw [hsp, (hbox hb).1])
      (by rw [bval_same fl fun hb => (hbox hb).2 (by simp)]; exact hrl.2.1)
      hold n (D + 1) _ [] o (pathOf dig k (D + 1) 0) (by rw [path_next]; simp) hdg (by simp) hch
    refine ⟨put dig k (split dig k v (leafKey fl m (H dig m k (D + 1))) w n (D + 1)) (D + 1) 0 t, o', ?_, ?_⟩
    · rw [hlen, hdep]
      exact Ins.conflict ⟨t, m.len, m.dep⟩ D n _ w hon hsl hkey hag hdg
    · have hau := array_used dig fl (m := m) hc
      have hoa : (H dig m k D).ptr ≠ (H dig m k (D + 1)).ptr ∨ fl.box = false := by
        cases hb : fl.box with
        | false => exact Or.inr rfl
        | true =>
          left; intro e
          have h1 := hrl.2.2.1 hb
          rw [← e, hrs.1] at h1
          exact absurd h1 (by simp)
      have hbr := isBranch_split dig k v (leafKey fl m (H dig m k (D + 1))) w n (D + 1)
      apply step dig fl (b := none) hr hon (Nat.le_refl D) hc hf
      · intro x _ _ h; exact absurd h (by simp)
      · intro x hx hn _
        apply ho1 x (Or.inr ⟨hx, fun hb e => ?_⟩)
        subst e; rw [hrl.2.2.1 hb] at hn; exact hn (List.prefix_refl _)
      · rw [hptr, ho1 _ (Or.inr ⟨hau, fun hb => ?_⟩)]
        · exact hrs.1
        · rcases hoa with h | h
          · exact h
          · rw [h] at hb; exact absurd hb (by simp)
      · rw [hptr, hpm, hcap]; exact hrs.2.1
      · intro q hq; rw [hpm, htm]; simp [setBit, hq]
      · rw [hpm]; simp only [hp, true_iff]; intro e; rw [e] at hbr; exact hbr
      · rw [htm]; simp only [setBit, if_true]
        constructor
        · intro h; exact absurd h (by simp)
        · intro h
          cases hx : split dig k v (leafKey fl m (H dig m k (D + 1))) w n (D + 1) <;> rw [hx] at h hbr
          · exact absurd h (by simp [isLeaf])
          · exact absurd hbr (by simp [isBranch])
          · exact absurd h (by simp [isLeaf])
      · intro q hq hqs
        rw [hptr, hpm, hs _ (rank_cap fl hrs hqs) (rank_ne hq hqs hp)]
      · rw [hptr, hpm]; exact ho2

theorem cnt_unique {pm : Bits} {d q : Fin 16} (h : cnt pm = 1) (hd : pm d = true) (hq : q ≠ d) : pm q = false := by
  cases hp : pm q with
  | false => rfl
  | true =>
    have h1 := rank_cnt hd
    have h2 := rank_cnt hp
    have := rank_ne hq hp hd
    omega

theorem cnt_single {pm : Bits} {d : Fin 16} (hd : pm d = true) (h : ∀ q, q ≠ d → pm q = false) : cnt pm = 1 := by
  have e : pm = setBit none16 d true := by
    funext q
    by_cases hq : q = d
    · subst hq; simp [setBit, hd]
    · simp [setBit, hq, h q hq, none16]
  rw [e, cnt_one]

/-- The same for `Del`. -/
theorem del_refines {m m' : Mem K V} {o : Own} {t : Node K V} {k : K} (hr : Repr fl m o [] m.root t) (ht : isBranch t)
    (hi : MDel dig fl m m' o t k) :
    ∃ t' o', Del dig k ⟨t, m.len, m.dep⟩ ⟨t', m'.len, m'.dep⟩ ∧ Repr fl m' o' [] m'.root t' := by
  cases hi with
  | absent D hR hcase hroot hbox harr hlen hdep =>
    obtain ⟨c, hon, hc, hrs⟩ := route_tree dig fl hr ht D hR
    refine ⟨t, o, ?_, ?_⟩
    · rw [hlen, hdep]
      refine Del.absent ⟨t, m.len, m.dep⟩ D hon ?_
      rcases hcase with h | ⟨h1, h2, h3⟩
      · left
        rw [show sub dig k (D + 1) 0 t = c (dig k D) from sub_of_branch dig hc]
        apply Classical.byContradiction
        intro he
        have := (hrs.2.2 _).1.2 he
        rw [h] at this; exact absurd this (by simp)
      · right
        obtain ⟨w, hsl, _, _⟩ := route_leaf dig fl hr hc h2
        exact ⟨_, w, hsl, h3⟩
    · rw [hroot]
      refine (repr_keep fl t [] m.root hr fun x hx => ⟨rfl, hbox x hx, fun hz => ⟨(harr x hx hz).1, fun i hi => Or.inr ((harr x hx hz).2 i hi)⟩⟩).1
  | plain D hR hp htb hkey hns hpm htm hptr hcap hs hf hlen hdep =>
    obtain ⟨c, hon, hc, hrs⟩ := route_tree dig fl hr ht D hR
    obtain ⟨w, hsl, hcl, hrl⟩ := route_leaf dig fl hr hc htb
    rw [hkey] at hsl hcl hrl
    refine ⟨put dig k empty (D + 1) 0 t, own1 o (head dig m m' k D).ptr (false, pathOf dig k D 0), ?_, ?_⟩
    · rw [hlen, hdep]
      refine Del.plain ⟨t, m.len, m.dep⟩ D w c hon hc hcl ?_
      by_cases hD : D = 0
      · exact Or.inl hD
      · right
        rintro d kT vT ⟨h1, h2⟩
        have hdk : d ≠ dig k D := by intro e; subst e; simp [upd] at h1
        have hcd : c d = leaf kT vT := by simpa [upd, hdk] using h1
        have hoth : ∀ q, q ≠ d → q ≠ dig k D → c q = empty := fun q h3 h4 => by simpa [upd, h4] using h2 q h3
        have hpd : (H dig m k D).pm d = true := (hrs.2.2 d).1.2 (by rw [hcd]; simp)
        have htd : (H dig m k D).tm d = true := (hrs.2.2 d).2.1.2 (by rw [hcd]; trivial)
        have hpo : ∀ q, q ≠ d → setBit (H dig m k D).pm (dig k D) false q = false := by
          intro q h3
          by_cases h4 : q = dig k D
          · simp [setBit, h4]
          · cases hq : (H dig m k D).pm q with
            | false => simp [setBit, hq]
            | true => exact absurd (hoth q h3 h4) ((hrs.2.2 q).1.1 hq)
        have hto : ∀ q, q ≠ d → setBit (H dig m k D).tm (dig k D) false q = false := by
          intro q h3
          by_cases h4 : q = dig k D
          · simp [setBit, h4]
          · cases hq : (H dig m k D).tm q with
            | false => simp [setBit, hq]
            | true =>
              have := (hrs.2.2 q).2.1.1 hq
              rw [hoth q h3 h4] at this; exact absurd this (by simp [isLeaf])
        apply hns
        refine ⟨hD, cnt_single (d := d) (by simp [setBit, hdk, hpd]) hpo, ?_⟩
        funext q
        by_cases hq : q = d
        · subst hq; simp [setBit, hdk, hpd, htd]
        · rw [hpo q hq, hto q hq]
    · apply step dig fl (b := none) hr hon (Nat.le_refl D) hc hf
      · intro x _ _ h; exact absurd h (by simp)
      · intro x hx _ hne
        have h2 : x ≠ (head dig m m' k D).ptr := by
          intro e
          rcases hptr with h | h
          · exact hne (e.trans h)
          · exact h.2 (e ▸ hx)
        simp only [own1, if_neg h2]
      · simp [own1]
      · rw [hcap, hpm, capOf_path]
      · intro q hq; rw [hpm, htm]; simp [setBit, hq]
      · rw [hpm]; simp [setBit]
      · rw [htm]; simp [setBit, isLeaf]
      · intro q hq hqs; exact hs q hqs hq
      · trivial
  | collapse D E d hR hp htb hkey hc1 hpt hE hone hmore hpd hdk hpm htm hptr hcap hs hmv hf hlen hdep =>
    obtain ⟨c, hon, hc, hrs⟩ := route_tree dig fl hr ht D hR
    obtain ⟨w, hsl, hcl, hrl⟩ := route_leaf dig fl hr hc htb
    rw [hkey] at hsl hcl hrl
    obtain ⟨cE, honE, hcE, hrE⟩ := route_tree dig fl hr ht E (fun j hj => hR j (by omega))
    have hp1 : setBit (H dig m k D).pm (dig k D) false d = true := by simp [setBit, hdk, hpd]
    have htd : (H dig m k D).tm d = true := by
      have := congrFun hpt d
      simpa [setBit, hdk, hpd] using this.symm
    have hlf := (hrs.2.2 d).2.1.1 htd
    have hpE := (hR E hE).1
    obtain ⟨kT, vT, hcd⟩ : ∃ kT vT, c d = leaf kT vT := by
      cases hx : c d with
      | empty => rw [hx] at hlf; exact absurd hlf (by simp [isLeaf])
      | branch _ => rw [hx] at hlf; exact absurd hlf (by simp [isLeaf])
      | leaf a b => exact ⟨a, b, rfl⟩
    have hrd := (hrs.2.2 d).2.2
    rw [hcd] at hrd
    have hud : fl.box = true → Uses fl m (m.slot (H dig m k D).ptr (rank (H dig m k D).pm d)).ptr m.root t := fun hb =>
      uses_of_sub dig fl hc (Or.inr ⟨d, by rw [hcd]; exact ⟨hb, rfl⟩⟩)
    have hbox := fun hb => hf.boxes _ (hud hb) (by rw [hrd.2.2.1 hb])
    refine ⟨put dig k (leaf kT vT) (E + 1) 0 t,
      (fun x => if fl.box = true ∧ x = (m.slot (H dig m k D).ptr (rank (H dig m k D).pm d)).ptr then (true, pathOf dig k (E + 1) 0) else o x), ?_, ?_⟩
    · rw [hlen, hdep]
      refine Del.collapse ⟨t, m.len, m.dep⟩ D E w c cE d kT vT hon hc hcl ⟨?_, ?_⟩ hE ?_ hcE ?_
      · simp [upd, hdk, hcd]
      · intro q hq
        have := cnt_unique hc1 hp1 hq
        by_cases h4 : q = dig k D
        · simp [upd, h4]
        · have hpq : (H dig m k D).pm q = false := by simpa [setBit, h4] using this
          simp only [upd, if_neg h4]
          apply Classical.byContradiction
          intro he
          have := (hrs.2.2 q).1.2 he
          rw [hpq] at this; exact absurd this (by simp)
      · intro i h1 h2
        obtain ⟨ci, _, hci, hri⟩ := route_tree dig fl hr ht i (fun j hj => hR j (by omega))
        refine ⟨ci, hci, fun q hq => ?_⟩
        have := cnt_unique (hone i h1 h2) (hR i h2).1 hq
        apply Classical.byContradiction
        intro he
        have h5 := (hri.2.2 q).1.2 he
        rw [this] at h5; exact absurd h5 (by simp)
      · rcases hmore with h | h
        · exact Or.inl h
        · right
          apply Classical.byContradiction
          intro hne
          apply h
          apply cnt_single hpE
          intro q hq
          cases hpq : (H dig m k E).pm q with
          | false => rfl
          | true => exact absurd ⟨q, hq, (hrE.2.2 q).1.1 hpq⟩ hne
    · apply step dig fl (b := none) hr hon (by omega : E ≤ D) hcE hf
      · intro x _ _ h; exact absurd h (by simp)
      · intro x hx hn _
        have h1 : ¬ (fl.box = true ∧ x = (m.slot (H dig m k D).ptr (rank (H dig m k D).pm d)).ptr) := by
          rintro ⟨hb, e⟩
          subst e
          rw [hrd.2.2.1 hb] at hn
          exact hn (List.IsPrefix.trans (prefix_path dig k (by omega)) (List.prefix_append _ _))
        simp only [if_neg h1]
      · have h1 : ¬ (fl.box = true ∧ (head dig m m' k E).ptr = (m.slot (H dig m k D).ptr (rank (H dig m k D).pm d)).ptr) := by
          rintro ⟨hb, e⟩
          rw [hptr] at e
          have h2 := hrd.2.2.1 hb
          rw [← e, hrE.1] at h2
          exact absurd h2 (by simp)
        simp only [if_neg h1]
        rw [hptr]; exact hrE.1
      · rw [hptr, hpm, hcap]; exact hrE.2.1
      · intro q hq; rw [hpm, htm]; simp [setBit, hq]
      · rw [hpm]; simp [hpE]
      · rw [htm]; simp [setBit, isLeaf]
      · intro q hq hqs
        rw [hptr, hpm, hs _ (rank_cap fl hrE hqs) (rank_ne hq hqs hpE)]
      · rw [hptr, hpm, hmv]
        refine ⟨?_, ?_, fun hb => ?_, hrd.2.2.2⟩
        · rw [leafKey_same fl fun hb => (hbox hb).1]; exact hrd.1
        · rw [bval_same fl fun hb => (hbox hb).2 (by simp)]; exact hrd.2.1
        · simp [hb]

/-! ### lookups and iteration -/

/-- spec.lookup_post: `Get` and, in sets, `Has`. -/
inductive MGet (m : Mem K V) (k : K) : Option V → Prop
  | miss (D : Nat) : Route dig m k D → (H dig m k D).pm (dig k D) = false → MGet m k none
  | other (D : Nat) : Route dig m k D → (H dig m k D).pm (dig k D) = true → (H dig m k D).tm (dig k D) = true →
      leafKey fl m (H dig m k (D + 1)) ≠ k → MGet m k none
  | hit (D : Nat) : Route dig m k D → (H dig m k D).pm (dig k D) = true → (H dig m k D).tm (dig k D) = true →
      leafKey fl m (H dig m k (D + 1)) = k → MGet m k (some (m.bval (H dig m k (D + 1)).ptr))

theorem get_refines {m : Mem K V} {o : Own} {t : Node K V} {k : K} {r : Option V} (hr : Repr fl m o [] m.root t) (ht : isBranch t)
    (hg : MGet dig fl m k r) : r = get dig k 0 t := by
  cases hg with
  | miss D hR hp =>
    obtain ⟨c, hon, hc, hrs⟩ := route_tree dig fl hr ht D hR
    rw [get_sub dig k (D + 1) 0 t hon k (agree_refl dig k _ _), sub_of_branch dig hc]
    have : c (dig k D) = empty := by
      apply Classical.byContradiction
      intro he
      have := (hrs.2.2 _).1.2 he
      rw [hp] at this; exact absurd this (by simp)
    rw [this]; rfl
  | other D hR hp htb hkey =>
    obtain ⟨c, hon, hc, hrs⟩ := route_tree dig fl hr ht D hR
    obtain ⟨w, hsl, hcl, hrl⟩ := route_leaf dig fl hr hc htb
    rw [get_sub dig k (D + 1) 0 t hon k (agree_refl dig k _ _), hsl, get, if_neg hkey]
  | hit D hR hp htb hkey =>
    obtain ⟨c, hon, hc, hrs⟩ := route_tree dig fl hr ht D hR
    obtain ⟨w, hsl, hcl, hrl⟩ := route_leaf dig fl hr hc htb
    rw [get_sub dig k (D + 1) 0 t hon k (agree_refl dig k _ _), hsl, get, if_pos hkey, hrl.2.1]

/-- spec.scan_post: what the scan of the branch in slot `s` does. -/
inductive MScan (m : Mem K V) (f : List (Entry K V) → Entry K V → Bool) :
    Nat → Slot → List (Entry K V) → List (Entry K V) × Bool → Prop
  | mk (L : Nat) (s : Slot) (seen : List (Entry K V)) (g : Fin 16 → List (Entry K V) → List (Entry K V) × Bool) :
      (∀ d z, s.pm d = false → g d z = (z, true)) →
      (∀ d z, s.pm d = true → s.tm d = true →
        g d z = (z ++ [(leafKey fl m (m.slot s.ptr (rank s.pm d)), m.bval (m.slot s.ptr (rank s.pm d)).ptr, L + 1)],
          f z (leafKey fl m (m.slot s.ptr (rank s.pm d)), m.bval (m.slot s.ptr (rank s.pm d)).ptr, L + 1))) →
      (∀ d z, s.pm d = true → s.tm d = false → MScan m f (L + 1) (m.slot s.ptr (rank s.pm d)) z (g d z)) →
      MScan m f L s seen ((List.finRange 16).foldl (fun r d => if r.2 then g d r.1 else r) (seen, true))

theorem scan_refines {m : Mem K V} {o : Own} {f : List (Entry K V) → Entry K V → Bool} : ∀ (t : Node K V) (p : List (Fin 16)) (L : Nat)
    (s : Slot) (seen : List (Entry K V)) (r : List (Entry K V) × Bool), isBranch t → Repr fl m o p s t → MScan fl m f L s seen r →
    r = scan f L t seen := by
  intro t
  induction t with
  | empty => intro p L s seen r h; exact absurd h (by simp [isBranch])
  | leaf _ _ => intro p L s seen r h; exact absurd h (by simp [isBranch])
  | branch c ih =>
    intro p L s seen r _ hr hs
    obtain ⟨_, _, _, g, h1, h2, h3⟩ := hs
    have hg : ∀ d z, g d z = scan f (L + 1) (c d) z := by
      intro d z
      have hd := hr.2.2 d
      cases hp : s.pm d with
      | false =>
        have : c d = empty := by
          apply Classical.byContradiction
          intro he
          have := hd.1.2 he
          rw [hp] at this; exact absurd this (by simp)
        rw [h1 d z hp, this]; simp [scan]
      | true =>
        cases htm : s.tm d with
        | true =>
          have hl := hd.2.1.1 htm
          have hrd := hd.2.2
          rw [h2 d z hp htm]
          cases hc : c d with
          | empty => rw [hc] at hl; exact absurd hl (by simp [isLeaf])
          | branch _ => rw [hc] at hl; exact absurd hl (by simp [isLeaf])
          | leaf k v => rw [hc] at hrd; rw [hrd.1, hrd.2.1]; simp [scan]
        | false =>
          have hne := hd.1.1 hp
          refine ih d (p ++ [d]) (L + 1) _ z _ ?_ hd.2.2 (h3 d z hp htm)
          cases hc : c d with
          | empty => exact absurd hc hne
          | branch _ => trivial
          | leaf _ _ =>
            have := hd.2.1.2 (by rw [hc]; trivial)
            rw [htm] at this; exact absurd this (by simp)
    have : g = fun d z => scan f (L + 1) (c d) z := by funext d z; exact hg d z
    rw [this, scan]

/-! ### what the contracts assume -/

/-- cx.node_wf, cx.leaf_wf and the modelling of the route's arrays: they hold whenever the
    memory represents a well-formed tree, for a level `D` the route ends at. -/
theorem pre {m : Mem K V} {o : Own} {t : Node K V} (hr : Repr fl m o [] m.root t) (hR : Root dig t) (k : K) :
    ∃ D, Route dig m k D ∧ ¬ ((H dig m k D).pm (dig k D) = true ∧ (H dig m k D).tm (dig k D) = false) ∧
      (∀ i j, i ≤ D → j ≤ D → (H dig m k i).ptr = (H dig m k j).ptr → i = j) ∧
      ∀ j, j ≤ D →
        (∀ q, (H dig m k j).tm q = true → (H dig m k j).pm q = true) ∧
        (o (H dig m k j).ptr).1 = false ∧
        m.cap (H dig m k j).ptr = (if j = 0 then 16 else round4 (cnt (H dig m k j).pm)) ∧
        (j ≠ 0 → (∃ q, (H dig m k j).pm q = true) ∧ ¬ (cnt (H dig m k j).pm = 1 ∧ (H dig m k j).tm = (H dig m k j).pm)) ∧
        ∀ q, (H dig m k j).pm q = true → rank (H dig m k j).pm q < m.cap (H dig m k j).ptr ∧
          ((H dig m k j).tm q = true →
            dig (leafKey fl m (m.slot (H dig m k j).ptr (rank (H dig m k j).pm q))) j = q ∧
            (fl.inSlot = none → (m.slot (H dig m k j).ptr (rank (H dig m k j).pm q)).pm = none16 ∧
              (m.slot (H dig m k j).ptr (rank (H dig m k j).pm q)).tm = none16) ∧
            (fl.box = true → o (m.slot (H dig m k j).ptr (rank (H dig m k j).pm q)).ptr = (true, pathOf dig k j 0 ++ [q]))) ∧
          ((H dig m k j).tm q = false → (o (m.slot (H dig m k j).ptr (rank (H dig m k j).pm q)).ptr).1 = false) := by
  obtain ⟨D, hon, hend⟩ := root_route_ends dig k hR
  have lvl : ∀ j, j ≤ D → ∃ c, sub dig k j 0 t = branch c ∧ Repr fl m o (pathOf dig k j 0) (H dig m k j) (branch c) ∧
      WF dig j (branch c) ∧ (j ≠ 0 → Canon (branch c)) := by
    intro j hj
    obtain ⟨c, hc⟩ := route_le dig hon hj
    have h1 := repr_sub dig fl k j 0 [] m.root t hr
    obtain ⟨c0, ht, hw, hcan⟩ := hR
    have h2 := wf_sub dig k j 0 t hw
    rw [hc] at h1 h2
    refine ⟨c, hc, by simpa using h1, by simpa using h2, fun h0 => ?_⟩
    cases j with
    | zero => exact absurd rfl h0
    | succ j =>
      have := canon_sub dig k j 1 _ (hcan (dig k 0))
      have e : sub dig k j 1 (c0 (dig k 0)) = branch c := by rw [← hc, ht]; simp [sub]
      rw [e] at this; exact this
  refine ⟨D, ?_, ?_, ?_, ?_⟩
  · intro j hj
    obtain ⟨c, hc, h1, _, _⟩ := lvl j (by omega)
    obtain ⟨c', hc', _⟩ := lvl (j + 1) (by omega)
    rw [sub_of_branch dig hc] at hc'
    refine ⟨(h1.2.2 _).1.2 (by rw [hc']; simp), ?_⟩
    cases htm : (H dig m k j).tm (dig k j) with
    | false => rfl
    | true =>
      have := (h1.2.2 _).2.1.1 htm
      rw [hc'] at this; exact absurd this (by simp [isLeaf])
  · rintro ⟨hp, htm⟩
    obtain ⟨c, hc, h1, _, _⟩ := lvl D (Nat.le_refl D)
    apply hend
    rw [sub_of_branch dig hc]
    cases hx : c (dig k D) with
    | branch _ => trivial
    | empty => exact absurd hx ((h1.2.2 _).1.1 hp)
    | leaf _ _ =>
      have := (h1.2.2 _).2.1.2 (by rw [hx]; trivial)
      rw [htm] at this; exact absurd this (by simp)
  · intro i j hi hj e
    obtain ⟨c, hc, h1, _, _⟩ := lvl i hi
    obtain ⟨c', hc', h1', _, _⟩ := lvl j hj
    have := h1.1
    rw [e, h1'.1] at this
    have := congrArg (fun z => z.2.length) this
    simp only [pathOf_length] at this
    exact this.symm
  · intro j hj
    obtain ⟨c, hc, h1, hw, hcan⟩ := lvl j hj
    have hleaf : ∀ q, (H dig m k j).tm q = true → ∃ k' v', c q = leaf k' v' := by
      intro q hq
      have := (h1.2.2 q).2.1.1 hq
      cases hx : c q with
      | empty => rw [hx] at this; exact absurd this (by simp [isLeaf])
      | branch _ => rw [hx] at this; exact absurd this (by simp [isLeaf])
      | leaf a b => exact ⟨a, b, rfl⟩
    have hcap : m.cap (H dig m k j).ptr = (if j = 0 then 16 else round4 (cnt (H dig m k j).pm)) := by
      rw [h1.2.1, capOf_path]
    refine ⟨?_, ?_, hcap, ?_, ?_⟩
    · intro q hq
      obtain ⟨a, b, hx⟩ := hleaf q hq
      exact (h1.2.2 q).1.2 (by rw [hx]; simp)
    · rw [h1.1]
    · intro h0
      obtain ⟨⟨q, hq⟩, hlone⟩ := (hcan h0).1
      refine ⟨⟨q, (h1.2.2 q).1.2 hq⟩, ?_⟩
      rintro ⟨hc1, htp⟩
      have hpq := (h1.2.2 q).1.2 hq
      apply hlone
      refine ⟨q, (h1.2.2 q).2.1.1 (by rw [htp]; exact hpq), fun q' hq' => ?_⟩
      have := cnt_unique hc1 hpq hq'
      apply Classical.byContradiction
      intro he
      have h5 := (h1.2.2 q').1.2 he
      rw [this] at h5; exact absurd h5 (by simp)
    · intro q hq
      refine ⟨?_, ?_, ?_⟩
      · rw [hcap]
        have h2 := rank_cnt hq
        have h3 := cnt_le (H dig m k j).pm
        split
        · omega
        · unfold round4; omega
      · intro htm
        obtain ⟨a, b, hx⟩ := hleaf q htm
        have hd := (h1.2.2 q).2.2
        rw [hx] at hd
        refine ⟨?_, hd.2.2.2, hd.2.2.1⟩
        rw [hd.1]
        have := (hw q).2 (a, b, j + 1) (by rw [hx]; simp [leaves])
        exact this
      · intro htm
        have hd := (h1.2.2 q).2.2
        cases hx : c q with
        | empty => exact absurd hx ((h1.2.2 q).1.1 hq)
        | branch _ => rw [hx] at hd; rw [hd.1]
        | leaf _ _ =>
          have := (h1.2.2 q).2.1.2 (by rw [hx]; trivial)
          rw [htm] at this; exact absurd this (by simp)

/-! ### histories of the memory -/

/-- Memories reached from that of a new container, each call doing what its contract
    says. The contracts speak of any tree and owners the memory represents. -/
inductive MReach : List (Op K V) → Mem K V → Prop
  | new (m : Mem K V) : m.root.pm = none16 → m.root.tm = none16 → m.cap m.root.ptr = 16 → m.len = 0 → m.dep = 0 → MReach [] m
  | ins {ops m m'} (k : K) (v : V) : MReach ops m →
      (∀ o t, Repr fl m o [] m.root t → Root dig t → Totals ⟨t, m.len, m.dep⟩ → MIns dig fl m m' o t k v) →
      MReach (ops ++ [.ins k v]) m'
  | del {ops m m'} (k : K) : MReach ops m →
      (∀ o t, Repr fl m o [] m.root t → Root dig t → Totals ⟨t, m.len, m.dep⟩ → MDel dig fl m m' o t k) →
      MReach (ops ++ [.del k]) m'

/-- Every memory reached represents a tree reached by the same operations. -/
theorem mem_reach {ops : List (Op K V)} {m : Mem K V} (h : MReach dig fl ops m) :
    ∃ t o, Repr fl m o [] m.root t ∧ Reach dig ops ⟨t, m.len, m.dep⟩ := by
  induction h with
  | new m hp ht hc hl hd =>
    refine ⟨branch fun _ => empty, fun _ => (false, []), ⟨rfl, ?_, fun d => ?_⟩, ?_⟩
    · rw [hc, hp]; simp [capOf]
    · rw [hp, ht]; simp [none16, isLeaf, Repr]
    · rw [hl, hd]; exact Reach.new
  | ins k v _ hs ih =>
    obtain ⟨t, o, h1, h2⟩ := ih
    obtain ⟨hR, hT, _⟩ := history dig h2
    have hb : isBranch t := by obtain ⟨c, hc, _⟩ := hR; simp only at hc; rw [hc]; trivial
    obtain ⟨t', o', h3, h4⟩ := ins_refines dig fl h1 hb (hs o t h1 hR hT)
    exact ⟨t', o', h4, Reach.step (.ins k v) h2 h3⟩
  | del k _ hs ih =>
    obtain ⟨t, o, h1, h2⟩ := ih
    obtain ⟨hR, hT, _⟩ := history dig h2
    have hb : isBranch t := by obtain ⟨c, hc, _⟩ := hR; simp only at hc; rw [hc]; trivial
    obtain ⟨t', o', h3, h4⟩ := del_refines dig fl h1 hb (hs o t h1 hR hT)
    exact ⟨t', o', h4, Reach.step (.del k) h2 h3⟩

/-- The map laws, for every history of the memory: what a lookup finds and what an
    iteration visits is what the mathematical map holds. -/
theorem mem_history {ops : List (Op K V)} {m : Mem K V} (h : MReach dig fl ops m) :
    (∀ k r, MGet dig fl m k r → r = modelOf ops k) ∧
    (∀ f r, MScan fl m f 0 m.root [] r → ∃ es : List (Entry K V), r = visits f es [] ∧ (es.map (·.1)).Nodup ∧ m.len = es.length ∧
      ∀ k v, modelOf ops k = some v ↔ ∃ l, (k, v, l) ∈ es) := by
  obtain ⟨t, o, h1, h2⟩ := mem_reach dig fl h
  obtain ⟨hR, hT, hG⟩ := history dig h2
  obtain ⟨c, hc, hw, _⟩ := id hR
  have hb : isBranch t := by simp only at hc; rw [hc]; trivial
  refine ⟨fun k r hg => ?_, fun f r hs => ?_⟩
  · rw [get_refines dig fl h1 hb hg]; exact hG k
  · refine ⟨leaves 0 t, ?_, nodup_keys dig hw, hT.1, fun k v => ?_⟩
    · rw [scan_refines fl t [] 0 m.root [] r hb h1 hs]; exact scan_visits f t 0 []
    · rw [← hG k]; exact get_iff dig hw

/-! ### C07: where values live -/

/-- The values of a map together with the boxes they are in. -/
def Tagged {V : Type} (m : Mem K (V × Nat)) : Prop := ∀ x, (m.bval x).2 = x

theorem chain_new {m m' : Mem K V} {t : Node K V} {k : K} {v : V} {k' : K} {old : Slot} :
    ∀ (n L : Nat) (s : Slot) (used : List Nat), Chain dig fl m m' t k v k' old n L s used → ∃ s', NewLeaf fl m m' t k v s' := by
  intro n
  induction n with
  | zero => intro L s used h; exact ⟨_, h.2.2.2.2.2.1⟩
  | succ n ih => intro L s used h; exact ih _ _ _ h.2.2.2.2.2

/-- The box of a key found: in use, and owned by the path of its leaf. -/
theorem box_of {V : Type} {fl : Flav K (V × Nat)} (hbx : fl.box = true) {m : Mem K (V × Nat)} (hm : Tagged m) {o : Own} {k : K} {w : V × Nat} :
    ∀ (t : Node K (V × Nat)) (p : List (Fin 16)) (s : Slot) (L : Nat), Repr fl m o p s t → get dig k L t = some w →
    Uses fl m w.2 s t ∧ ∃ n, o w.2 = (true, p ++ pathOf dig k n L) ∧ sub dig k n L t = leaf k w := by
  intro t
  induction t with
  | empty => intro p s L _ h; exact absurd h (by simp [get])
  | leaf k' w' =>
    intro p s L hr h
    rw [get] at h
    split at h
    · rename_i e
      subst e
      have e : w' = w := by simpa using h
      subst e
      have hp : w'.2 = s.ptr := by rw [← hr.2.1]; exact hm _
      refine ⟨⟨hbx, hp.symm⟩, 0, ?_, ?_⟩
      · rw [hp, hr.2.2.1 hbx]; simp [pathOf]
      · simp [sub]
    · exact absurd h (by simp)
  | branch c ih =>
    intro p s L hr h
    rw [get] at h
    obtain ⟨h1, n, h2, h3⟩ := ih (dig k L) _ _ (L + 1) (hr.2.2 _).2.2 h
    refine ⟨Or.inr ⟨_, h1⟩, n + 1, ?_, ?_⟩
    · rw [h2, pathOf]; simp
    · rw [sub]; exact h3

theorem sub_congr {a b : K} : ∀ (n L : Nat) (t : Node K V), pathOf dig a n L = pathOf dig b n L → sub dig a n L t = sub dig b n L t := by
  intro n
  induction n with
  | zero => intro L t _; rfl
  | succ n ih =>
    intro L t h
    simp only [pathOf, List.cons.injEq] at h
    cases t with
    | empty => simp [sub]
    | leaf _ _ => simp [sub]
    | branch c => rw [sub, sub, h.1]; exact ih _ _ h.2

/-- Values of distinct keys are in distinct boxes. -/
theorem boxes_distinct {V : Type} {fl : Flav K (V × Nat)} (hbx : fl.box = true) {m : Mem K (V × Nat)} (hm : Tagged m) {o : Own}
    {t : Node K (V × Nat)} (hr : Repr fl m o [] m.root t) {q r : K} {w u : V × Nat} (hq : get dig q 0 t = some w)
    (hu : get dig r 0 t = some u) (h : w.2 = u.2) : q = r := by
  obtain ⟨_, n, h1, h2⟩ := box_of dig hbx hm t [] m.root 0 hr hq
  obtain ⟨_, n', h3, h4⟩ := box_of dig hbx hm t [] m.root 0 hr hu
  rw [h, h3] at h1
  have h5 := congrArg Prod.snd h1
  simp only [List.nil_append] at h5
  have h6 := congrArg List.length h5
  rw [pathOf_length, pathOf_length] at h6
  subst h6
  rw [sub_congr dig _ _ _ h5, h2] at h4
  injection h4

/-- An insertion leaves every key in the box it is in, the inserted one included; a new
    key's box is none of those in use. -/
theorem boxes_ins {V : Type} {fl : Flav K (V × Nat)} (hbx : fl.box = true) {m m' : Mem K (V × Nat)} (hm : Tagged m) (hm' : Tagged m') {o : Own}
    {t : Node K (V × Nat)} (hr : Repr fl m o [] m.root t) (ht : isBranch t) {k : K} {v : V × Nat} (hi : MIns dig fl m m' o t k v) :
    ((get dig k 0 t = none ∧ ∀ q w, get dig q 0 t = some w → v.2 ≠ w.2) ∨ ∃ w, get dig k 0 t = some w ∧ v.2 = w.2) ∧
    ∃ t' o', Repr fl m' o' [] m'.root t' ∧ ∀ q w, get dig q 0 t = some w → ∃ w', get dig q 0 t' = some w' ∧ w'.2 = w.2 := by
  have h1 : (get dig k 0 t = none ∧ ∀ q w, get dig q 0 t = some w → v.2 ≠ w.2) ∨ ∃ w, get dig k 0 t = some w ∧ v.2 = w.2 := by
    have hnew : ∀ s, NewLeaf fl m m' t k v s → ∀ q w, get dig q 0 t = some w → v.2 ≠ w.2 := by
      intro s hs q w hq e
      have hp : v.2 = s.ptr := by rw [← hs.val]; exact hm' _
      apply hs.own hbx
      rw [← hp, e]
      exact (box_of dig hbx hm t [] m.root 0 hr hq).1
    cases hi with
    | miss D hR hp _ _ _ _ _ hnl _ _ _ _ =>
      exact Or.inl ⟨(get_refines dig fl hr ht (MGet.miss D hR hp)).symm, hnew _ hnl⟩
    | hit D hR hp htb hkey _ _ _ _ hbv _ _ _ =>
      refine Or.inr ⟨_, (get_refines dig fl hr ht (MGet.hit D hR hp htb hkey)).symm, ?_⟩
      rw [← hbv, hm', hm]
    | conflict D n hR hp htb hkey _ _ _ _ _ _ _ hch _ _ _ =>
      obtain ⟨s, hs⟩ := chain_new dig fl n _ _ _ hch
      exact Or.inl ⟨(get_refines dig fl hr ht (MGet.other D hR hp htb hkey)).symm, hnew s hs⟩
  refine ⟨h1, ?_⟩
  obtain ⟨t', o', h2, h3⟩ := ins_refines dig fl hr ht hi
  refine ⟨t', o', h3, fun q w hq => ?_⟩
  have h4 := ins_get dig h2 q
  by_cases e : k = q
  · subst e
    rw [if_pos rfl] at h4
    refine ⟨v, h4, ?_⟩
    rcases h1 with ⟨h, _⟩ | ⟨w', h, h5⟩
    · rw [hq] at h; exact absurd h (by simp)
    · rw [hq] at h; rw [h5]; injection h with h; rw [h]
  · rw [if_neg e] at h4
    exact ⟨w, h4.trans hq, rfl⟩

/-- A deletion leaves every other key in its box. -/
theorem boxes_del {V : Type} {fl : Flav K (V × Nat)} {m m' : Mem K (V × Nat)} {o : Own}
    {t : Node K (V × Nat)} (hr : Repr fl m o [] m.root t) (hR : Root dig t) {k : K} (hi : MDel dig fl m m' o t k) :
    ∃ t' o', Repr fl m' o' [] m'.root t' ∧ ∀ q w, q ≠ k → get dig q 0 t = some w → get dig q 0 t' = some w := by
  have ht : isBranch t := by obtain ⟨c, hc, _⟩ := hR; rw [hc]; trivial
  obtain ⟨t', o', h2, h3⟩ := del_refines dig fl hr ht hi
  refine ⟨t', o', h3, fun q w hne hq => ?_⟩
  have h4 := del_get dig (s := ⟨t, m.len, m.dep⟩) hR h2 q
  rw [if_neg (fun e => hne e.symm)] at h4
  exact h4.trans hq

end Amt
