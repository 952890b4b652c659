/-
  From the per-call contracts to the listed properties.

  The verifier (/verif/amtv) proves, for each operation of each container, a
  contract that speaks about one call: which entries of which branches on the
  key's route change, and how (spec.py: insert_post, delete_post, lookup_post,
  scan_post). Here the same contracts are stated on the tree the memory
  represents, and the properties that speak about all histories are derived.

  `dig k L` is the 4-bit hash digit of key k at level L.
-/
set_option linter.unusedSectionVars false

namespace Amt

variable {K V : Type} [DecidableEq K] (dig : K → Nat → Fin 16)

inductive Node (K V : Type)
  | empty
  | leaf (k : K) (v : V)
  | branch (c : Fin 16 → Node K V)

open Node

/-- A stored entry, and one more than the level of the branch holding it. -/
abbrev Entry (K V : Type) := K × V × Nat

/-- Entries of a subtree in iteration order; `L` is the level of its branch,
    one more than that of the branch holding it. -/
def leaves : Nat → Node K V → List (Entry K V)
  | _, empty => []
  | L, leaf k v => [(k, v, L)]
  | L, branch c => (List.finRange 16).flatMap fun d => leaves (L + 1) (c d)

/-- Lookup, as lookup_post states it. `L` is the level of the node's own branch. -/
def get (k : K) : Nat → Node K V → Option V
  | _, empty => none
  | _, leaf k' v => if k' = k then some v else none
  | L, branch c => get k (L + 1) (c (dig k L))

/-- Keys sit where their digits lead. -/
def WF : Nat → Node K V → Prop
  | _, empty => True
  | _, leaf _ _ => True
  | L, branch c => ∀ d, WF (L + 1) (c d) ∧ ∀ e ∈ leaves (L + 1) (c d), dig e.1 L = d

def isBranch : Node K V → Prop
  | branch _ => True
  | _ => False

def isLeaf : Node K V → Prop
  | leaf _ _ => True
  | _ => False

/-- A branch below the top: not empty, and not one single leaf. -/
def proper (c : Fin 16 → Node K V) : Prop :=
  (∃ d, c d ≠ empty) ∧ ¬ ∃ d, isLeaf (c d) ∧ ∀ d', d' ≠ d → c d' = empty

/-- No superfluous branches anywhere in the tree. -/
def Canon : Node K V → Prop
  | branch c => proper c ∧ ∀ d, Canon (c d)
  | _ => True

/-- A whole container: its top level is a branch, which may hold anything. -/
def Root (t : Node K V) : Prop :=
  ∃ c, t = branch c ∧ WF dig 0 t ∧ ∀ d, Canon (c d)

/-! ### replacing the node at depth n of a key's route -/

def upd (c : Fin 16 → Node K V) (d : Fin 16) (x : Node K V) : Fin 16 → Node K V :=
  fun d' => if d' = d then x else c d'

/-- The node `n` branches below a level-`L` node on the route of `k`. -/
def sub (k : K) : Nat → Nat → Node K V → Node K V
  | 0, _, t => t
  | n + 1, L, branch c => sub k n (L + 1) (c (dig k L))
  | _ + 1, _, _ => empty

/-- The same tree with that node replaced. -/
def put (k : K) (x : Node K V) : Nat → Nat → Node K V → Node K V
  | 0, _, _ => x
  | n + 1, L, branch c => branch (upd c (dig k L) (put k x n (L + 1) (c (dig k L))))
  | _ + 1, _, t => t

/-- The route of `k` passes `n` branches. -/
def onRoute (k : K) : Nat → Nat → Node K V → Prop
  | 0, _, _ => True
  | n + 1, L, branch c => onRoute k n (L + 1) (c (dig k L))
  | _ + 1, _, _ => False

/-- Keys agree on digits L .. L+n-1. -/
def agree (a b : K) (L n : Nat) : Prop := ∀ i, i < n → dig a (L + i) = dig b (L + i)

theorem agree_zero (a b : K) (L : Nat) : agree dig a b L 0 := fun _ h => absurd h (Nat.not_lt_zero _)

theorem agree_succ (a b : K) (L n : Nat) :
    agree dig a b L (n + 1) ↔ dig a L = dig b L ∧ agree dig a b (L + 1) n := by
  constructor
  · intro h
    refine ⟨by simpa using h 0 (Nat.succ_pos _), fun i hi => ?_⟩
    have := h (i + 1) (Nat.succ_lt_succ hi)
    have e : L + (i + 1) = L + 1 + i := by omega
    rwa [e] at this
  · rintro ⟨h0, h⟩ i hi
    cases i with
    | zero => simpa using h0
    | succ j =>
      have := h j (Nat.lt_of_succ_lt_succ hi)
      have e : L + (j + 1) = L + 1 + j := by omega
      rwa [e]

theorem mem_leaves_branch {L : Nat} {c : Fin 16 → Node K V} {e : Entry K V} :
    e ∈ leaves L (branch c) ↔ ∃ d, e ∈ leaves (L + 1) (c d) := by
  simp [leaves, List.mem_flatMap, List.mem_finRange]

/-- Under WF a lookup finds exactly the stored entries. -/
theorem get_iff {k : K} {v : V} : ∀ {t : Node K V} {L : Nat}, WF dig L t →
    (get dig k L t = some v ↔ ∃ m, (k, v, m) ∈ leaves L t) := by
  intro t
  induction t with
  | empty => intro L _; simp [get, leaves]
  | leaf k' v' =>
    intro L _
    by_cases h : k' = k
    · subst h; simp [get, leaves, eq_comm]
    · have h' : ¬ k = k' := fun e => h e.symm
      simp [get, leaves, h, h']
  | branch c ih =>
    intro L hw
    rw [get]
    rw [ih (dig k L) (hw (dig k L)).1]
    constructor
    · rintro ⟨m, hm⟩; exact ⟨m, mem_leaves_branch.2 ⟨_, hm⟩⟩
    · rintro ⟨m, hm⟩
      obtain ⟨d, hd⟩ := mem_leaves_branch.1 hm
      have := (hw d).2 _ hd
      simp at this
      rw [this]; exact ⟨m, hd⟩

/-- Every key occurs once. -/
theorem nodup_keys : ∀ {t : Node K V} {L : Nat}, WF dig L t → ((leaves L t).map (·.1)).Nodup := by
  intro t
  induction t with
  | empty => intro L _; simp [leaves]
  | leaf k v => intro L _; simp [leaves]
  | branch c ih =>
    intro L hw
    rw [leaves, List.map_flatMap]
    have hall : ∀ (ds : List (Fin 16)), ds.Nodup →
        (ds.flatMap fun d => (leaves (L + 1) (c d)).map (·.1)).Nodup := by
      intro ds
      induction ds with
      | nil => intro _; simp
      | cons d ds ihd =>
        intro hn
        rw [List.nodup_cons] at hn
        rw [List.flatMap_cons, List.nodup_append]
        refine ⟨ih d (hw d).1, ihd hn.2, ?_⟩
        intro a ha b hb hab
        subst hab
        rw [List.mem_map] at ha
        obtain ⟨e, he, rfl⟩ := ha
        rw [List.mem_flatMap] at hb
        obtain ⟨d', hd', hm⟩ := hb
        rw [List.mem_map] at hm
        obtain ⟨e', he', hk⟩ := hm
        have h1 := (hw d).2 e he
        have h2 := (hw d').2 e' he'
        rw [hk] at h2
        have : d = d' := h1.symm.trans h2
        exact hn.1 (this ▸ hd')
    exact hall _ (List.nodup_finRange 16)

/-! ### put -/

theorem get_put_same (k : K) (x : Node K V) : ∀ (n L : Nat) (t : Node K V), onRoute dig k n L t →
    ∀ k', agree dig k' k L n → get dig k' L (put dig k x n L t) = get dig k' (L + n) x := by
  intro n
  induction n with
  | zero => intro L t _ k' _; simp [put]
  | succ n ih =>
    intro L t hr k' ha
    cases t with
    | empty => exact absurd hr (by simp [onRoute])
    | leaf _ _ => exact absurd hr (by simp [onRoute])
    | branch c =>
      rw [agree_succ] at ha
      rw [put, get, ha.1]
      simp only [upd, if_true]
      rw [ih (L + 1) _ (by simpa [onRoute] using hr) k' ha.2]
      congr 1; omega

theorem get_put_other (k : K) (x : Node K V) : ∀ (n L : Nat) (t : Node K V), onRoute dig k n L t →
    ∀ k', ¬ agree dig k' k L n → get dig k' L (put dig k x n L t) = get dig k' L t := by
  intro n
  induction n with
  | zero => intro L t _ k' h; exact absurd (agree_zero dig k' k L) h
  | succ n ih =>
    intro L t hr k' ha
    cases t with
    | empty => exact absurd hr (by simp [onRoute])
    | leaf _ _ => exact absurd hr (by simp [onRoute])
    | branch c =>
      rw [agree_succ] at ha
      rw [put, get, get]
      by_cases h : dig k' L = dig k L
      · simp only [upd, h, if_true]
        exact ih (L + 1) _ (by simpa [onRoute] using hr) k' (fun h2 => ha ⟨h, h2⟩)
      · simp [upd, h]

theorem get_sub (k : K) : ∀ (n L : Nat) (t : Node K V), onRoute dig k n L t →
    ∀ k', agree dig k' k L n → get dig k' L t = get dig k' (L + n) (sub dig k n L t) := by
  intro n
  induction n with
  | zero => intro L t _ k' _; simp [sub]
  | succ n ih =>
    intro L t hr k' ha
    cases t with
    | empty => exact absurd hr (by simp [onRoute])
    | leaf _ _ => exact absurd hr (by simp [onRoute])
    | branch c =>
      rw [agree_succ] at ha
      rw [get, sub, ha.1, ih (L + 1) _ (by simpa [onRoute] using hr) k' ha.2]
      congr 1; omega

/-- Replacing the node replaces its entries and no others, in place. -/
theorem leaves_put (k : K) : ∀ (n L : Nat) (t : Node K V), onRoute dig k n L t →
    ∃ pre post, leaves L t = pre ++ leaves (L + n) (sub dig k n L t) ++ post ∧
      ∀ x, leaves L (put dig k x n L t) = pre ++ leaves (L + n) x ++ post := by
  intro n
  induction n with
  | zero => intro L t _; exact ⟨[], [], by simp [sub], fun x => by simp [put]⟩
  | succ n ih =>
    intro L t hr
    cases t with
    | empty => exact absurd hr (by simp [onRoute])
    | leaf _ _ => exact absurd hr (by simp [onRoute])
    | branch c =>
      obtain ⟨pre, post, h1, h2⟩ := ih (L + 1) (c (dig k L)) (by simpa [onRoute] using hr)
      have e : L + 1 + n = L + (n + 1) := by omega
      rw [e] at h1 h2
      obtain ⟨as, bs, hs⟩ := List.append_of_mem (List.mem_finRange (dig k L))
      have hn : (as ++ dig k L :: bs).Nodup := hs ▸ List.nodup_finRange 16
      have hna : ∀ d ∈ as, d ≠ dig k L := by
        intro d hd he
        rw [List.nodup_append] at hn
        exact hn.2.2 d hd (dig k L) (by simp) he
      have hnb : ∀ d ∈ bs, d ≠ dig k L := by
        intro d hd he
        rw [List.nodup_append, List.nodup_cons] at hn
        exact hn.2.1.1 (he ▸ hd)
      have same : ∀ (x : Node K V) (ds : List (Fin 16)), (∀ d ∈ ds, d ≠ dig k L) →
          (ds.flatMap fun d => leaves (L + 1) (upd c (dig k L) x d)) = ds.flatMap fun d => leaves (L + 1) (c d) := by
        intro x ds
        induction ds with
        | nil => intro _; rfl
        | cons d ds ihd =>
          intro h
          rw [List.flatMap_cons, List.flatMap_cons, ihd (fun d hd => h d (by simp [hd]))]
          simp [upd, h d (by simp)]
      refine ⟨(as.flatMap fun d => leaves (L + 1) (c d)) ++ pre, post ++ bs.flatMap fun d => leaves (L + 1) (c d), ?_, ?_⟩
      · rw [leaves, hs, List.flatMap_append, List.flatMap_cons, h1, sub]; simp
      · intro x
        rw [put, leaves, hs, List.flatMap_append, List.flatMap_cons, same _ as hna, same _ bs hnb]
        simp only [upd, if_true]
        rw [h2]; simp

theorem wf_sub (k : K) : ∀ (n L : Nat) (t : Node K V), WF dig L t → WF dig (L + n) (sub dig k n L t) := by
  intro n
  induction n with
  | zero => intro L t h; simpa [sub] using h
  | succ n ih =>
    intro L t h
    cases t with
    | empty => simp [sub, WF]
    | leaf _ _ => simp [sub, WF]
    | branch c =>
      have := ih (L + 1) _ (h (dig k L)).1
      have e : L + 1 + n = L + (n + 1) := by omega
      rw [e] at this
      simpa [sub] using this

theorem agree_of_mem_sub (k : K) : ∀ (n L : Nat) (t : Node K V), WF dig L t → onRoute dig k n L t →
    ∀ e ∈ leaves (L + n) (sub dig k n L t), agree dig e.1 k L n := by
  intro n
  induction n with
  | zero => intro L t _ _ e _; exact agree_zero dig _ _ _
  | succ n ih =>
    intro L t h hr e he
    cases t with
    | empty => exact absurd hr (by simp [onRoute])
    | leaf _ _ => exact absurd hr (by simp [onRoute])
    | branch c =>
      have e2 : L + (n + 1) = L + 1 + n := by omega
      rw [e2] at he
      have hr' : onRoute dig k n (L + 1) (c (dig k L)) := by simpa [onRoute] using hr
      have he' : e ∈ leaves (L + 1 + n) (sub dig k n (L + 1) (c (dig k L))) := by simpa [sub] using he
      obtain ⟨pre, post, h1, _⟩ := leaves_put dig k n (L + 1) _ hr'
      have hm : e ∈ leaves (L + 1) (c (dig k L)) := by rw [h1]; simp [he']
      rw [agree_succ]
      exact ⟨(h (dig k L)).2 e hm, ih (L + 1) _ (h (dig k L)).1 hr' e he'⟩

theorem wf_put (k : K) (x : Node K V) : ∀ (n L : Nat) (t : Node K V), WF dig L t → onRoute dig k n L t →
    WF dig (L + n) x → (∀ e ∈ leaves (L + n) x, agree dig e.1 k L n) → WF dig L (put dig k x n L t) := by
  intro n
  induction n with
  | zero => intro L t _ _ hx _; simpa [put] using hx
  | succ n ih =>
    intro L t h hr hx ha
    cases t with
    | empty => exact absurd hr (by simp [onRoute])
    | leaf _ _ => exact absurd hr (by simp [onRoute])
    | branch c =>
      have hr' : onRoute dig k n (L + 1) (c (dig k L)) := by simpa [onRoute] using hr
      have e2 : L + (n + 1) = L + 1 + n := by omega
      rw [e2] at hx ha
      rw [put]
      intro d
      by_cases hd : d = dig k L
      · subst hd
        simp only [upd, if_true]
        refine ⟨ih (L + 1) _ (h _).1 hr' hx (fun e he => ((agree_succ dig _ _ _ _).1 (ha e he)).2), ?_⟩
        intro e he
        obtain ⟨pre, post, h1, h2⟩ := leaves_put dig k n (L + 1) _ hr'
        rw [h2 x] at he
        simp only [List.mem_append] at he
        rcases he with (he | he) | he
        · exact (h _).2 e (by rw [h1]; simp [he])
        · exact ((agree_succ dig _ _ _ _).1 (ha e he)).1
        · exact (h _).2 e (by rw [h1]; simp [he])
      · simp only [upd, hd, if_false]
        exact h d

/-! ### canonicity -/

theorem canon_sub (k : K) : ∀ (n L : Nat) (t : Node K V), Canon t → Canon (sub dig k n L t) := by
  intro n
  induction n with
  | zero => intro L t h; simpa [sub] using h
  | succ n ih =>
    intro L t h
    cases t with
    | empty => simp [sub, Canon]
    | leaf _ _ => simp [sub, Canon]
    | branch c => simpa [sub] using ih (L + 1) _ (h.2 (dig k L))

/-- Replacing an entry of a proper branch by a branch keeps it proper. -/
theorem proper_upd_branch {c : Fin 16 → Node K V} (d : Fin 16) {x : Node K V} (hx : isBranch x) :
    proper (upd c d x) := by
  refine ⟨⟨d, ?_⟩, ?_⟩
  · simp only [upd, if_true]
    intro he; rw [he] at hx; exact hx
  · rintro ⟨d0, hl, hu⟩
    by_cases hd : d = d0
    · subst hd
      simp only [upd, if_true] at hl
      cases x with
      | branch _ => exact hl
      | empty => exact hx
      | leaf _ _ => exact hx
    · have := hu d hd
      simp only [upd, if_true] at this
      rw [this] at hx; exact hx

/-- Replacing a node below by another that is a branch exactly if it was: nothing above notices. -/
theorem canon_put_branch (k : K) (x : Node K V) (hx : isBranch x) (cx : Canon x) : ∀ (n L : Nat) (t : Node K V),
    Canon t → onRoute dig k n L t → Canon (put dig k x n L t) := by
  intro n
  induction n with
  | zero => intro L t _ _; simpa [put] using cx
  | succ n ih =>
    intro L t h hr
    cases t with
    | empty => exact absurd hr (by simp [onRoute])
    | leaf _ _ => exact absurd hr (by simp [onRoute])
    | branch c =>
      have hr' : onRoute dig k n (L + 1) (c (dig k L)) := by simpa [onRoute] using hr
      rw [put]
      refine ⟨proper_upd_branch _ ?_, ?_⟩
      · cases n with
        | zero => simpa [put] using hx
        | succ n =>
          cases hc : c (dig k L) with
          | empty => rw [hc] at hr'; exact absurd hr' (by simp [onRoute])
          | leaf _ _ => rw [hc] at hr'; exact absurd hr' (by simp [onRoute])
          | branch _ => simp [put, isBranch]
      · intro d
        by_cases hd : d = dig k L
        · subst hd; simpa only [upd, if_true] using ih (L + 1) _ (h.2 _) hr'
        · simpa only [upd, hd, if_false] using h.2 d

theorem put_branch (k : K) (x : Node K V) (n L : Nat) (t : Node K V) (h : onRoute dig k (n + 1) L t) :
    ∃ c, put dig k x (n + 1) L t = branch c := by
  cases t with
  | empty => exact absurd h (by simp [onRoute])
  | leaf _ _ => exact absurd h (by simp [onRoute])
  | branch c => exact ⟨_, rfl⟩

/-- A proper branch holds two keys at least. -/
theorem two_keys : ∀ {c : Fin 16 → Node K V} {L : Nat}, WF dig L (branch c) → Canon (branch c) →
    ∃ e ∈ leaves L (branch c), ∃ e' ∈ leaves L (branch c), e.1 ≠ e'.1 := by
  have key : ∀ (t : Node K V) (L : Nat), WF dig L t → Canon t → isBranch t →
      ∃ e ∈ leaves L t, ∃ e' ∈ leaves L t, e.1 ≠ e'.1 := by
    intro t
    induction t with
    | empty => intro L _ _ h; exact absurd h (by simp [isBranch])
    | leaf _ _ => intro L _ _ h; exact absurd h (by simp [isBranch])
    | branch c ih =>
      intro L hw hc _
      obtain ⟨⟨d, hd⟩, hs⟩ := hc.1
      have some_key : ∀ d, c d ≠ empty → ∃ e, e ∈ leaves (L + 1) (c d) := by
        intro d hd
        cases hcd : c d with
        | empty => exact absurd hcd hd
        | leaf k v => exact ⟨(k, v, L + 1), by simp [leaves]⟩
        | branch c' =>
          have := ih d (L + 1) (hw d).1 (hc.2 d) (by rw [hcd]; simp [isBranch])
          obtain ⟨e, he, _⟩ := this
          exact ⟨e, by rw [hcd] at he; exact he⟩
      by_cases hb : isBranch (c d)
      · obtain ⟨e, he, e', he', hne⟩ := ih d (L + 1) (hw d).1 (hc.2 d) hb
        exact ⟨e, mem_leaves_branch.2 ⟨d, he⟩, e', mem_leaves_branch.2 ⟨d, he'⟩, hne⟩
      · have hl : isLeaf (c d) := by
          cases hcd : c d with
          | empty => exact absurd hcd hd
          | leaf _ _ => simp [isLeaf]
          | branch _ => rw [hcd] at hb; exact absurd (by simp [isBranch]) hb
        have : ¬ ∀ d', d' ≠ d → c d' = empty := fun h => hs ⟨d, hl, h⟩
        obtain ⟨d', h'⟩ := Classical.not_forall.1 this
        have hne : d' ≠ d := fun he => h' (fun hh => absurd he hh)
        have hce : c d' ≠ empty := fun he => h' (fun _ => he)
        obtain ⟨e, he⟩ := some_key d hd
        obtain ⟨e', he'⟩ := some_key d' hce
        refine ⟨e, mem_leaves_branch.2 ⟨d, he⟩, e', mem_leaves_branch.2 ⟨d', he'⟩, ?_⟩
        intro hk
        have h1 := (hw d).2 e he
        have h2 := (hw d').2 e' he'
        rw [hk] at h1
        exact hne (h2.symm.trans h1)
  intro c L hw hc
  exact key _ L hw hc (by simp [isBranch])

/-- C05: the tree is determined by its contents. -/
theorem unique : ∀ (t u : Node K V) (L : Nat), WF dig L t → WF dig L u → Canon t → Canon u →
    (∀ k, get dig k L t = get dig k L u) → t = u := by
  have none_empty : ∀ (u : Node K V) (L : Nat), WF dig L u → Canon u → (∀ k, get dig k L u = none) → u = empty := by
    intro u L hw hc h
    cases u with
    | empty => rfl
    | leaf k v => have := h k; simp [get] at this
    | branch c =>
      obtain ⟨⟨k, v, m⟩, he, _⟩ := two_keys dig hw hc
      have := (get_iff dig hw).2 ⟨m, he⟩
      rw [h k] at this; exact absurd this (by simp)
  have leaf_only : ∀ (u : Node K V) (L : Nat) (k : K) (v : V), WF dig L u → Canon u →
      (∀ k', get dig k' L u = if k = k' then some v else none) → u = leaf k v := by
    intro u L k v hw hc h
    cases u with
    | empty => have := h k; simp [get] at this
    | leaf k' v' =>
      have := h k'
      simp only [get, if_true] at this
      by_cases hk : k = k'
      · subst hk; simp at this; rw [this]
      · rw [if_neg hk] at this; exact absurd this (by simp)
    | branch c =>
      obtain ⟨⟨k1, v1, m1⟩, he1, ⟨k2, v2, m2⟩, he2, hne⟩ := two_keys dig hw hc
      have h1 := (get_iff dig hw).2 ⟨m1, he1⟩
      have h2 := (get_iff dig hw).2 ⟨m2, he2⟩
      rw [h k1] at h1; rw [h k2] at h2
      by_cases e1 : k = k1
      · by_cases e2 : k = k2
        · exact absurd (e1.symm.trans e2) hne
        · rw [if_neg e2] at h2; exact absurd h2 (by simp)
      · rw [if_neg e1] at h1; exact absurd h1 (by simp)
  intro t
  induction t with
  | empty => intro u L _ hu _ cu h; exact (none_empty u L hu cu (fun k => by rw [← h k]; rfl)).symm
  | leaf k v => intro u L _ hu _ cu h; exact (leaf_only u L k v hu cu (fun k' => by rw [← h k']; rfl)).symm
  | branch c ih =>
    intro u L ht hu ct cu h
    cases u with
    | empty => exact none_empty _ L ht ct (fun k => by rw [h k]; rfl)
    | leaf k v => exact leaf_only _ L k v ht ct (fun k' => by rw [h k']; rfl)
    | branch c' =>
      congr 1
      funext d
      refine ih d (c' d) (L + 1) (ht d).1 (hu d).1 (ct.2 d) (cu.2 d) ?_
      intro k
      by_cases hd : dig k L = d
      · have := h k; simp only [get, hd] at this; exact this
      · have none_of : ∀ (x : Node K V), WF dig (L + 1) x → (∀ e ∈ leaves (L + 1) x, dig e.1 L = d) → get dig k (L + 1) x = none := by
          intro x hx ha
          cases hg : get dig k (L + 1) x with
          | none => rfl
          | some v =>
            obtain ⟨m, hm⟩ := (get_iff dig hx).1 hg
            exact absurd (ha _ hm) hd
        rw [none_of _ (ht d).1 (ht d).2, none_of _ (hu d).1 (hu d).2]

/-- C05 for whole containers, whose top level need not be proper. -/
theorem unique_root (t u : Node K V) (ht : Root dig t) (hu : Root dig u)
    (h : ∀ k, get dig k 0 t = get dig k 0 u) : t = u := by
  obtain ⟨c, rfl, hw, hc⟩ := ht
  obtain ⟨c', rfl, hw', hc'⟩ := hu
  congr 1
  funext d
  refine unique dig (c d) (c' d) 1 (hw d).1 (hw' d).1 (hc d) (hc' d) ?_
  intro k
  by_cases hd : dig k 0 = d
  · have := h k; simp only [get, hd] at this; exact this
  · have none_of : ∀ (x : Node K V), WF dig 1 x → (∀ e ∈ leaves 1 x, dig e.1 0 = d) → get dig k 1 x = none := by
      intro x hx ha
      cases hg : get dig k 1 x with
      | none => rfl
      | some v =>
        obtain ⟨m, hm⟩ := (get_iff dig hx).1 hg
        exact absurd (ha _ hm) hd
    rw [none_of _ (hw d).1 (hw d).2, none_of _ (hw' d).1 (hw' d).2]

/-! ### the contracts -/

/-- The branches a conflict creates below level `L - 1`: `m` with one entry, then
    one with both keys (insert_conflict). -/
def split (k : K) (v : V) (k' : K) (w : V) : Nat → Nat → Node K V
  | 0, L => branch (upd (upd (fun _ => empty) (dig k' L) (leaf k' w)) (dig k L) (leaf k v))
  | m + 1, L => branch (upd (fun _ => empty) (dig k L) (split k v k' w m (L + 1)))

/-- A container: its tree and the two recorded totals. -/
structure Cont (K V : Type) where
  t : Node K V
  len : Nat
  dep : Nat

/-- What insert_post says of `Set`, `Mod` and `Add`: `D` is the level where the route ends. -/
inductive Ins (k : K) (v : V) : Cont K V → Cont K V → Prop
  | miss (s : Cont K V) (D : Nat) : onRoute dig k (D + 1) 0 s.t → sub dig k (D + 1) 0 s.t = empty →
      Ins k v s ⟨put dig k (leaf k v) (D + 1) 0 s.t, s.len + 1, s.dep + D⟩
  | hit (s : Cont K V) (D : Nat) (w : V) : onRoute dig k (D + 1) 0 s.t → sub dig k (D + 1) 0 s.t = leaf k w →
      Ins k v s ⟨put dig k (leaf k v) (D + 1) 0 s.t, s.len, s.dep⟩
  | conflict (s : Cont K V) (D m : Nat) (k' : K) (w : V) : onRoute dig k (D + 1) 0 s.t →
      sub dig k (D + 1) 0 s.t = leaf k' w → k' ≠ k →
      agree dig k' k 0 (D + 1 + m) → dig k' (D + 1 + m) ≠ dig k (D + 1 + m) →
      Ins k v s ⟨put dig k (split dig k v k' w m (D + 1)) (D + 1) 0 s.t, s.len + 1, s.dep - D + 2 * (D + 1 + m)⟩

/-- A branch with just one entry, a leaf. -/
def single (c : Fin 16 → Node K V) (d : Fin 16) (kT : K) (vT : V) : Prop :=
  c d = leaf kT vT ∧ ∀ d', d' ≠ d → c d' = empty

/-- The branches at levels `i` with `E < i < D` hold nothing but the route of `k`. -/
def onlyRoute (k : K) (t : Node K V) (E D : Nat) : Prop :=
  ∀ i, E < i → i < D → ∃ c, sub dig k i 0 t = branch c ∧ ∀ d, d ≠ dig k i → c d = empty

/-- What delete_post says of `Del`. -/
inductive Del (k : K) : Cont K V → Cont K V → Prop
  | absent (s : Cont K V) (D : Nat) : onRoute dig k (D + 1) 0 s.t →
      (sub dig k (D + 1) 0 s.t = empty ∨ ∃ k' w, sub dig k (D + 1) 0 s.t = leaf k' w ∧ k' ≠ k) → Del k s s
  | plain (s : Cont K V) (D : Nat) (w : V) (c : Fin 16 → Node K V) : onRoute dig k (D + 1) 0 s.t →
      sub dig k D 0 s.t = branch c → c (dig k D) = leaf k w →
      (D = 0 ∨ ∀ d kT vT, ¬ single (upd c (dig k D) empty) d kT vT) →
      Del k s ⟨put dig k empty (D + 1) 0 s.t, s.len - 1, s.dep - D⟩
  | collapse (s : Cont K V) (D E : Nat) (w : V) (c cE : Fin 16 → Node K V) (d : Fin 16) (kT : K) (vT : V) :
      onRoute dig k (D + 1) 0 s.t → sub dig k D 0 s.t = branch c → c (dig k D) = leaf k w →
      single (upd c (dig k D) empty) d kT vT → E < D → onlyRoute dig k s.t E D →
      sub dig k E 0 s.t = branch cE → (E = 0 ∨ ∃ d, d ≠ dig k E ∧ cE d ≠ empty) →
      Del k s ⟨put dig k (leaf kT vT) (E + 1) 0 s.t, s.len - 1, s.dep - D - (D - E)⟩

/-! ### insertion -/

theorem leaves_empty_fun (L : Nat) (ds : List (Fin 16)) :
    (ds.flatMap fun _ => leaves (L + 1) (empty : Node K V)) = [] := by
  induction ds with
  | nil => rfl
  | cons d ds ih => rw [List.flatMap_cons, ih]; simp [leaves]

theorem leaves_upd_one (L : Nat) (d : Fin 16) (x : Node K V) :
    leaves L (branch (upd (fun _ => empty) d x)) = leaves (L + 1) x := by
  have aux : ∀ (ds : List (Fin 16)), ds.Nodup →
      (ds.flatMap fun d' => leaves (L + 1) (upd (fun _ => empty) d x d')) = if d ∈ ds then leaves (L + 1) x else [] := by
    intro ds
    induction ds with
    | nil => intro _; simp
    | cons a ds ih =>
      intro hn
      rw [List.nodup_cons] at hn
      rw [List.flatMap_cons, ih hn.2]
      by_cases h : a = d
      · subst h; simp [upd, hn.1]
      · have h' : ¬ d = a := fun e => h e.symm
        simp [upd, h, h', leaves]
  rw [leaves, aux _ (List.nodup_finRange 16)]
  simp [List.mem_finRange]

/-- The new branches hold the two keys, one level below the last digits in common. -/
theorem leaves_split (k : K) (v : V) (k' : K) (w : V) : ∀ (m L : Nat), agree dig k' k L m →
    dig k' (L + m) ≠ dig k (L + m) →
    leaves L (split dig k v k' w m L) = [(k, v, L + m + 1), (k', w, L + m + 1)] ∨
    leaves L (split dig k v k' w m L) = [(k', w, L + m + 1), (k, v, L + m + 1)] := by
  intro m
  induction m with
  | zero =>
    intro L _ hne
    have hne' : dig k' L ≠ dig k L := by simpa using hne
    let t0 : Node K V := branch (upd (fun _ => empty) (dig k' L) (leaf k' w))
    rw [split]
    have aux : ∀ (ds : List (Fin 16)), ds.Nodup →
        (ds.flatMap fun d => leaves (L + 1) (upd (upd (fun _ => empty) (dig k' L) (leaf k' w)) (dig k L) (leaf k v) d)) =
        if dig k L ∈ ds then (if dig k' L ∈ ds then
            (if ds.idxOf (dig k L) < ds.idxOf (dig k' L) then [(k, v, L + 1), (k', w, L + 1)] else [(k', w, L + 1), (k, v, L + 1)])
            else [(k, v, L + 1)]) else (if dig k' L ∈ ds then [(k', w, L + 1)] else []) := by
      intro ds
      induction ds with
      | nil => intro _; simp
      | cons a ds ih =>
        intro hn
        rw [List.nodup_cons] at hn
        rw [List.flatMap_cons, ih hn.2]
        by_cases h1 : a = dig k L
        · subst h1
          have this : ¬ dig k L = dig k' L := fun e => hne' e.symm
          have hb : (dig k L == dig k' L) = false := beq_eq_false_iff_ne.2 this
          by_cases hm : dig k' L ∈ ds <;>
            simp [upd, leaves, hn.1, hne', List.idxOf_cons, hb, hm]
        · by_cases h2 : a = dig k' L
          · subst h2
            have this : ¬ dig k L = dig k' L := fun e => hne' e.symm
            have hb : (dig k' L == dig k L) = false := beq_eq_false_iff_ne.2 hne'
            by_cases hm : dig k L ∈ ds <;>
              simp [upd, leaves, hn.1, hne', List.idxOf_cons, this, hb, hm]
          · have h1' : ¬ dig k L = a := fun e => h1 e.symm
            have h2' : ¬ dig k' L = a := fun e => h2 e.symm
            have b1 : (a == dig k L) = false := beq_eq_false_iff_ne.2 h1
            have b2 : (a == dig k' L) = false := beq_eq_false_iff_ne.2 h2
            simp [upd, leaves, h1, h2, h1', h2', List.idxOf_cons, b1, b2]
    rw [leaves, aux _ (List.nodup_finRange 16)]
    simp only [List.mem_finRange, if_true]
    split
    · left; simp
    · right; simp
  | succ m ih =>
    intro L ha hne
    rw [agree_succ] at ha
    have e : L + (m + 1) = L + 1 + m := by omega
    rw [e] at hne
    rw [split, leaves_upd_one]
    have := ih (L + 1) ha.2 hne
    rw [e]; exact this

theorem isBranch_split (k : K) (v : V) (k' : K) (w : V) (m L : Nat) : isBranch (split dig k v k' w m L) := by
  cases m <;> simp [split, isBranch]

theorem wf_split (k : K) (v : V) (k' : K) (w : V) : ∀ (m L : Nat), agree dig k' k L m →
    dig k' (L + m) ≠ dig k (L + m) → WF dig L (split dig k v k' w m L) := by
  intro m
  induction m with
  | zero =>
    intro L _ _ d
    simp only [upd]
    by_cases h1 : d = dig k L
    · subst h1; simp [WF, leaves]
    · by_cases h2 : d = dig k' L
      · subst h2; simp [h1, WF, leaves]
      · simp [h1, h2, WF, leaves]
  | succ m ih =>
    intro L ha hne
    rw [agree_succ] at ha
    have e : L + (m + 1) = L + 1 + m := by omega
    rw [e] at hne
    intro d
    simp only [upd]
    by_cases h1 : d = dig k L
    · subst h1
      simp only [if_true]
      refine ⟨ih (L + 1) ha.2 hne, ?_⟩
      intro x hx
      rcases leaves_split dig k v k' w m (L + 1) ha.2 hne with h | h
      · rw [h] at hx; simp at hx; rcases hx with rfl | rfl
        · rfl
        · exact ha.1
      · rw [h] at hx; simp at hx; rcases hx with rfl | rfl
        · exact ha.1
        · rfl
    · simp [h1, WF, leaves]

theorem canon_split (k : K) (v : V) (k' : K) (w : V) : ∀ (m L : Nat), agree dig k' k L m →
    dig k' (L + m) ≠ dig k (L + m) → Canon (split dig k v k' w m L) := by
  intro m
  induction m with
  | zero =>
    intro L _ hne
    have hne' : dig k' L ≠ dig k L := by simpa using hne
    refine ⟨⟨⟨dig k L, by simp [upd]⟩, ?_⟩, ?_⟩
    · rintro ⟨d, hl, hu⟩
      by_cases h1 : d = dig k L
      · have := hu (dig k' L) (by rw [h1]; exact hne')
        simp [upd, hne'] at this
      · have := hu (dig k L) (fun e => h1 e.symm)
        simp [upd] at this
    · intro d
      simp only [upd]
      by_cases h1 : d = dig k L
      · simp [h1, Canon]
      · by_cases h2 : d = dig k' L
        · simp [h1, h2, hne', Canon]
        · simp [h1, h2, Canon]
  | succ m ih =>
    intro L ha hne
    rw [agree_succ] at ha
    have e : L + (m + 1) = L + 1 + m := by omega
    rw [e] at hne
    refine ⟨proper_upd_branch _ (isBranch_split dig k v k' w m (L + 1)), ?_⟩
    intro d
    simp only [upd]
    by_cases h1 : d = dig k L
    · simpa [h1] using ih (L + 1) ha.2 hne
    · simp [h1, Canon]

/-- Replacing a non-branch of a proper branch by a leaf, where the entry was there before
    or the branch was not empty, keeps it proper; `Canon` follows below the top level. -/
theorem proper_upd_leaf {c : Fin 16 → Node K V} (h : proper c) (d : Fin 16) (k : K) (v : V)
    (hd : ¬ isBranch (c d)) : proper (upd c d (leaf k v)) := by
  refine ⟨⟨d, by simp [upd]⟩, ?_⟩
  rintro ⟨d0, hl, hu⟩
  have hd0 : d = d0 := by
    by_cases e : d = d0
    · exact e
    · have := hu d e; simp [upd] at this
  subst hd0
  have hrest : ∀ d', d' ≠ d → c d' = empty := by
    intro d' h'
    have := hu d' h'
    simpa [upd, h'] using this
  cases hc : c d with
  | branch _ => rw [hc] at hd; exact hd (by simp [isBranch])
  | leaf _ _ => exact h.2 ⟨d, by rw [hc]; simp [isLeaf], hrest⟩
  | empty =>
    obtain ⟨d1, h1⟩ := h.1
    by_cases e : d1 = d
    · rw [e] at h1; exact h1 hc
    · exact h1 (hrest d1 e)

/-- Putting a leaf where there was no branch. -/
theorem canon_put_leaf (k0 k : K) (v : V) : ∀ (n L : Nat) (t : Node K V), Canon t → onRoute dig k0 (n + 1) L t →
    ¬ isBranch (sub dig k0 (n + 1) L t) → Canon (put dig k0 (leaf k v) (n + 1) L t) := by
  intro n
  induction n with
  | zero =>
    intro L t h hr hs
    cases t with
    | empty => exact absurd hr (by simp [onRoute])
    | leaf _ _ => exact absurd hr (by simp [onRoute])
    | branch c =>
      simp only [sub] at hs
      simp only [put]
      refine ⟨proper_upd_leaf h.1 _ k v hs, ?_⟩
      intro d
      by_cases e : d = dig k0 L
      · simp [upd, e, Canon]
      · simpa [upd, e] using h.2 d
  | succ n ih =>
    intro L t h hr hs
    cases t with
    | empty => exact absurd hr (by simp [onRoute])
    | leaf _ _ => exact absurd hr (by simp [onRoute])
    | branch c =>
      have hr' : onRoute dig k0 (n + 1) (L + 1) (c (dig k0 L)) := by simpa [onRoute] using hr
      have hs' : ¬ isBranch (sub dig k0 (n + 1) (L + 1) (c (dig k0 L))) := by simpa [sub] using hs
      have hcan := ih (L + 1) _ (h.2 (dig k0 L)) hr' hs'
      obtain ⟨c', hc'⟩ := put_branch dig k0 (leaf k v) n (L + 1) _ hr'
      rw [put]
      refine ⟨proper_upd_branch _ (by rw [hc']; simp [isBranch]), ?_⟩
      intro d
      by_cases e : d = dig k0 L
      · simpa [upd, e] using hcan
      · simpa [upd, e] using h.2 d

/-- From a container to its subtrees and back. -/
theorem root_put (k0 : K) (x : Node K V) (n : Nat) (t : Node K V) (h : Root dig t) (hr : onRoute dig k0 (n + 1) 0 t)
    (hx : WF dig (n + 1) x) (ha : ∀ e ∈ leaves (n + 1) x, agree dig e.1 k0 0 (n + 1))
    (hc : ∀ c, t = branch c → Canon (put dig k0 x n 1 (c (dig k0 0)))) : Root dig (put dig k0 x (n + 1) 0 t) := by
  obtain ⟨c, rfl, hw, hcan⟩ := h
  refine ⟨upd c (dig k0 0) (put dig k0 x n 1 (c (dig k0 0))), by simp [put], ?_, ?_⟩
  · exact wf_put dig k0 x (n + 1) 0 (branch c) hw hr (by simpa using hx) (by simpa using ha)
  · intro d
    by_cases e : d = dig k0 0
    · simpa [upd, e] using hc c rfl
    · simpa [upd, e] using hcan d

theorem agree_refl (a : K) (L n : Nat) : agree dig a a L n := fun _ _ => rfl

theorem agree_mono {a b : K} {L n m : Nat} (h : agree dig a b L n) (hm : m ≤ n) : agree dig a b L m :=
  fun i hi => h i (Nat.lt_of_lt_of_le hi hm)

theorem agree_shift {a b : K} {n m : Nat} (h : agree dig a b 0 (n + m)) : agree dig a b n m := by
  intro i hi
  have := h (n + i) (by omega)
  simpa using this

theorem root_put_leaf (k0 k : K) (v : V) (D : Nat) (t : Node K V) (h : Root dig t) (hr : onRoute dig k0 (D + 1) 0 t)
    (hs : ¬ isBranch (sub dig k0 (D + 1) 0 t)) (ha : agree dig k k0 0 (D + 1)) :
    Root dig (put dig k0 (leaf k v) (D + 1) 0 t) := by
  refine root_put dig k0 _ D t h hr (by simp [WF]) (by intro e he; simp [leaves] at he; rw [he]; exact ha) ?_
  rintro c rfl
  obtain ⟨c0, he, hw, hcan⟩ := h
  cases he
  have hr' : onRoute dig k0 D 1 (c (dig k0 0)) := by simpa [onRoute] using hr
  cases D with
  | zero => simp [put, Canon]
  | succ n => exact canon_put_leaf dig k0 k v n 1 _ (hcan _) hr' (by simpa [sub] using hs)

theorem root_put_branch (k0 : K) (x : Node K V) (D : Nat) (t : Node K V) (h : Root dig t) (hr : onRoute dig k0 (D + 1) 0 t)
    (hb : isBranch x) (hx : WF dig (D + 1) x) (cx : Canon x) (ha : ∀ e ∈ leaves (D + 1) x, agree dig e.1 k0 0 (D + 1)) :
    Root dig (put dig k0 x (D + 1) 0 t) := by
  refine root_put dig k0 x D t h hr hx ha ?_
  rintro c rfl
  obtain ⟨c0, he, hw, hcan⟩ := h
  cases he
  exact canon_put_branch dig k0 x hb cx D 1 _ (hcan _) (by simpa [onRoute] using hr)

/-- The representation invariant is kept by insertions. -/
theorem ins_root {k : K} {v : V} {s s' : Cont K V} (h : Root dig s.t) (hi : Ins dig k v s s') : Root dig s'.t := by
  cases hi with
  | miss D hr hs => exact root_put_leaf dig k k v D s.t h hr (by rw [hs]; simp [isBranch]) (agree_refl dig _ _ _)
  | hit D w hr hs => exact root_put_leaf dig k k v D s.t h hr (by rw [hs]; simp [isBranch]) (agree_refl dig _ _ _)
  | conflict D m k' w hr hs hk ha hne =>
    refine root_put_branch dig k _ D s.t h hr (isBranch_split dig k v k' w m _) (wf_split dig k v k' w m _ (agree_shift dig ha) hne)
      (canon_split dig k v k' w m _ (agree_shift dig ha) hne) ?_
    intro e he
    rcases leaves_split dig k v k' w m (D + 1) (agree_shift dig ha) hne with hh | hh <;> rw [hh] at he <;> simp at he <;>
      rcases he with rfl | rfl
    · exact agree_refl dig _ _ _
    · exact agree_mono dig ha (by omega)
    · exact agree_mono dig ha (by omega)
    · exact agree_refl dig _ _ _

theorem get_none_of_not_agree (k0 k : K) (n : Nat) (x : Node K V) (L : Nat) (hx : WF dig L x)
    (ha : ∀ e ∈ leaves L x, agree dig e.1 k0 0 n) (hk : ¬ agree dig k k0 0 n) : get dig k L x = none := by
  cases hg : get dig k L x with
  | none => rfl
  | some v =>
    obtain ⟨m, hm⟩ := (get_iff dig hx).1 hg
    exact absurd (ha _ hm) hk

theorem get_split (k : K) (v : V) (k' : K) (w : V) (m L : Nat) (ha : agree dig k' k L m)
    (hne : dig k' (L + m) ≠ dig k (L + m)) (q : K) :
    get dig q L (split dig k v k' w m L) = if k = q then some v else if k' = q then some w else none := by
  have hw := wf_split dig k v k' w m L ha hne
  have hkk : k ≠ k' := fun e => hne (by rw [e])
  have hl : ∀ e, e ∈ leaves L (split dig k v k' w m L) ↔ e = (k, v, L + m + 1) ∨ e = (k', w, L + m + 1) := by
    intro e
    rcases leaves_split dig k v k' w m L ha hne with h | h <;> rw [h] <;> simp [or_comm]
  by_cases h1 : k = q
  · subst h1
    rw [if_pos rfl]
    exact (get_iff dig hw).2 ⟨_, (hl _).2 (Or.inl rfl)⟩
  · by_cases h2 : k' = q
    · subst h2
      rw [if_neg h1, if_pos rfl]
      exact (get_iff dig hw).2 ⟨_, (hl _).2 (Or.inr rfl)⟩
    · rw [if_neg h1, if_neg h2]
      cases hg : get dig q L (split dig k v k' w m L) with
      | none => rfl
      | some u =>
        obtain ⟨mm, hm⟩ := (get_iff dig hw).1 hg
        rcases (hl _).1 hm with e | e
        · simp at e; exact absurd e.1.symm h1
        · simp at e; exact absurd e.1.symm h2

/-- Lookups after a node is replaced, from lookups in the node. -/
theorem get_put (k : K) (n : Nat) (t x : Node K V) (hr : onRoute dig k n 0 t) (F : K → Option V → Option V)
    (hx : ∀ q, get dig q n x = F q (get dig q n (sub dig k n 0 t)))
    (ho : ∀ q o, ¬ agree dig q k 0 n → F q o = o) (q : K) :
    get dig q 0 (put dig k x n 0 t) = F q (get dig q 0 t) := by
  by_cases ha : agree dig q k 0 n
  · rw [get_put_same dig k x _ _ _ hr q ha, get_sub dig k _ _ _ hr q ha]
    simp only [Nat.zero_add]
    exact hx q
  · rw [get_put_other dig k x _ _ _ hr q ha, ho q _ ha]

/-- C01, C02: after an insertion the key has the new value and every other key the old one. -/
theorem ins_get {k : K} {v : V} {s s' : Cont K V} (hi : Ins dig k v s s') (q : K) :
    get dig q 0 s'.t = if k = q then some v else get dig q 0 s.t := by
  have ho : ∀ (D : Nat) q (o : Option V), ¬ agree dig q k 0 (D + 1) → (if k = q then some v else o) = o := by
    intro D q o ha
    exact if_neg (fun e => ha (by rw [e]; exact agree_refl dig _ _ _))
  cases hi with
  | miss D hr hs => exact get_put dig k _ _ _ hr (fun q o => if k = q then some v else o) (by intro q; rw [hs]; simp [get]) (ho D) q
  | hit D w hr hs =>
    refine get_put dig k _ _ _ hr (fun q o => if k = q then some v else o) ?_ (ho D) q
    intro q; rw [hs]; simp only [get]
    split <;> rfl
  | conflict D m k' w hr hs hk ha hne =>
    refine get_put dig k _ _ _ hr (fun q o => if k = q then some v else o) ?_ (ho D) q
    intro q
    rw [hs, get_split dig k v k' w m (D + 1) (agree_shift dig ha) hne]
    simp only [get]

/-! ### the totals -/

/-- Number of stored keys. -/
def count (t : Node K V) : Nat := (leaves 0 t).length

def lsum : List (Entry K V) → Nat
  | [] => 0
  | e :: es => (e.2.2 - 1) + lsum es

theorem lsum_append (a b : List (Entry K V)) : lsum (a ++ b) = lsum a + lsum b := by
  induction a with
  | nil => simp [lsum]
  | cons e es ih => simp [lsum, ih]; omega

/-- Sum of the levels at which the keys are stored. -/
def levels (t : Node K V) : Nat := lsum (leaves 0 t)

/-- The recorded totals are right. -/
def Totals (s : Cont K V) : Prop := s.len = count s.t ∧ s.dep = levels s.t

theorem totals_put (k : K) (n : Nat) (t x : Node K V) (hr : onRoute dig k n 0 t) :
    ∃ a b, count t = a + (leaves n (sub dig k n 0 t)).length ∧ levels t = b + lsum (leaves n (sub dig k n 0 t)) ∧
      count (put dig k x n 0 t) = a + (leaves n x).length ∧ levels (put dig k x n 0 t) = b + lsum (leaves n x) := by
  obtain ⟨pre, post, h1, h2⟩ := leaves_put dig k n 0 t hr
  have h2 := h2 x
  simp only [Nat.zero_add] at h1 h2
  refine ⟨pre.length + post.length, lsum pre + lsum post, ?_, ?_, ?_, ?_⟩
  · simp [count, h1]; omega
  · simp [levels, h1, lsum_append]; omega
  · simp [count, h2]; omega
  · simp [levels, h2, lsum_append]; omega

theorem split_totals (k : K) (v : V) (k' : K) (w : V) (m L : Nat) (ha : agree dig k' k L m)
    (hne : dig k' (L + m) ≠ dig k (L + m)) :
    (leaves L (split dig k v k' w m L)).length = 2 ∧ lsum (leaves L (split dig k v k' w m L)) = 2 * (L + m) := by
  rcases leaves_split dig k v k' w m L ha hne with h | h <;> rw [h] <;> simp [lsum] <;> omega

/-- C03, C04: insertions keep the totals exact. -/
theorem ins_totals {k : K} {v : V} {s s' : Cont K V} (h : Totals s) (hi : Ins dig k v s s') : Totals s' := by
  obtain ⟨hl, hd⟩ := h
  cases hi with
  | miss D hr hs =>
    obtain ⟨a, b, h1, h2, h3, h4⟩ := totals_put dig k _ s.t (leaf k v) hr
    rw [hs] at h1 h2
    simp [leaves, lsum] at h1 h2 h3 h4
    constructor <;> simp only <;> omega
  | hit D w hr hs =>
    obtain ⟨a, b, h1, h2, h3, h4⟩ := totals_put dig k _ s.t (leaf k v) hr
    rw [hs] at h1 h2
    simp [leaves, lsum] at h1 h2 h3 h4
    constructor <;> simp only <;> omega
  | conflict D m k' w hr hs hk ha hne =>
    obtain ⟨a, b, h1, h2, h3, h4⟩ := totals_put dig k _ s.t (split dig k v k' w m (D + 1)) hr
    obtain ⟨e1, e2⟩ := split_totals dig k v k' w m (D + 1) (agree_shift dig ha) hne
    rw [hs] at h1 h2
    rw [e1] at h3; rw [e2] at h4
    simp [leaves, lsum] at h1 h2
    constructor <;> simp only <;> omega

/-! ### deletion -/

theorem sub_succ (k : K) : ∀ (n L : Nat) (t : Node K V), sub dig k (n + 1) L t =
    sub dig k 1 (L + n) (sub dig k n L t) := by
  intro n
  induction n with
  | zero => intro L t; simp [sub]
  | succ n ih =>
    intro L t
    cases t with
    | empty => simp [sub]
    | leaf _ _ => simp [sub]
    | branch c =>
      have := ih (L + 1) (c (dig k L))
      have e : L + 1 + n = L + (n + 1) := by omega
      rw [e] at this
      simpa only [sub] using this

theorem sub_of_branch {k : K} {n : Nat} {t : Node K V} {c : Fin 16 → Node K V} (h : sub dig k n 0 t = branch c) :
    sub dig k (n + 1) 0 t = c (dig k n) := by
  rw [sub_succ, h]; simp [sub]

theorem put_succ (k : K) (x : Node K V) : ∀ (n L : Nat) (t : Node K V) (c : Fin 16 → Node K V), sub dig k n L t = branch c →
    put dig k x (n + 1) L t = put dig k (branch (upd c (dig k (L + n)) x)) n L t := by
  intro n
  induction n with
  | zero => intro L t c h; simp only [sub] at h; subst h; simp [put]
  | succ n ih =>
    intro L t c h
    cases t with
    | empty => simp [sub] at h
    | leaf _ _ => simp [sub] at h
    | branch c0 =>
      simp only [sub] at h
      have := ih (L + 1) _ c h
      have e : L + 1 + n = L + (n + 1) := by omega
      rw [e] at this
      rw [put, this, put]

theorem onRoute_mono (k : K) : ∀ (n m L : Nat) (t : Node K V), onRoute dig k n L t → m ≤ n → onRoute dig k m L t := by
  intro n
  induction n with
  | zero => intro m L t h hm; have : m = 0 := by omega
            subst this; exact h
  | succ n ih =>
    intro m L t h hm
    cases m with
    | zero => simp [onRoute]
    | succ m =>
      cases t with
      | empty => exact absurd h (by simp [onRoute])
      | leaf _ _ => exact absurd h (by simp [onRoute])
      | branch c => exact ih m (L + 1) _ (by simpa [onRoute] using h) (by omega)

/-- What collapses is exactly what a conflict creates. -/
theorem collapse_split {k : K} {t : Node K V} {D E : Nat} {w : V} {c : Fin 16 → Node K V} {d : Fin 16} {kT : K} {vT : V}
    (hw : WF dig 0 t) (hr : onRoute dig k (D + 1) 0 t) (hs : sub dig k D 0 t = branch c) (hk : c (dig k D) = leaf k w)
    (h1 : single (upd c (dig k D) empty) d kT vT) (_hE : E < D) (ho : onlyRoute dig k t E D) :
    agree dig kT k 0 D ∧ dig kT D ≠ dig k D ∧
    ∀ m, m + (E + 1) ≤ D → sub dig k (D - m) 0 t = split dig k w kT vT m (D - m) := by
  have hd : d ≠ dig k D := by
    intro e
    have := h1.1
    rw [e] at this; simp [upd] at this
  have hcd : c d = leaf kT vT := by simpa [upd, hd] using h1.1
  have hrest : ∀ d', d' ≠ dig k D → d' ≠ d → c d' = empty := by
    intro d' a b
    have := h1.2 d' b
    simpa [upd, a] using this
  have hwD : WF dig D (branch c) := by have := wf_sub dig k D 0 t hw; rw [hs] at this; simpa using this
  have hdig : dig kT D = d := (hwD d).2 (kT, vT, D + 1) (by rw [hcd]; simp [leaves])
  have hag : agree dig kT k 0 D := by
    have hm : ((kT, vT, D + 1) : Entry K V) ∈ leaves (0 + D) (sub dig k D 0 t) := by
      rw [hs]; refine mem_leaves_branch.2 ⟨d, ?_⟩; simp [hcd, leaves]
    exact agree_of_mem_sub dig k D 0 t hw (onRoute_mono dig k _ _ _ _ hr (by omega)) _ hm
  refine ⟨hag, by rw [hdig]; exact hd, ?_⟩
  intro m
  induction m with
  | zero =>
    intro _
    simp only [Nat.sub_zero]
    rw [hs, split]
    congr 1
    funext d'
    simp only [upd]
    by_cases a : d' = dig k D
    · rw [if_pos a, a, hk]
    · rw [if_neg a, hdig]
      by_cases b : d' = d
      · rw [if_pos b, b, hcd]
      · rw [if_neg b, hrest d' a b]
  | succ m ih =>
    intro hm
    have ih := ih (by omega)
    obtain ⟨ci, hi, hoi⟩ := ho (D - (m + 1)) (by omega) (by omega)
    have hn := sub_of_branch dig hi
    have e : D - (m + 1) + 1 = D - m := by omega
    rw [e] at hn
    rw [hi, split, e, ← ih, hn]
    congr 1
    funext d'
    simp only [upd]
    by_cases a : d' = dig k (D - (m + 1))
    · rw [if_pos a, a]
    · rw [if_neg a, hoi d' a]

/-- The representation invariant is kept by deletions. -/
theorem del_root {k : K} {s s' : Cont K V} (h : Root dig s.t) (hi : Del dig k s s') : Root dig s'.t := by
  -- replacing the node at depth n by a branch that is proper unless it is the top
  have main : ∀ (n : Nat) (t : Node K V) (c : Fin 16 → Node K V) (x : Node K V), Root dig t → onRoute dig k (n + 1) 0 t →
      sub dig k n 0 t = branch c → (n = 0 ∨ proper (upd c (dig k n) x)) → Canon x → WF dig (n + 1) x →
      (∀ e ∈ leaves (n + 1) x, agree dig e.1 k 0 (n + 1)) → Root dig (put dig k x (n + 1) 0 t) := by
    intro n t c x hroot hr hs hp cx hx ha
    refine root_put dig k x n t hroot hr hx ha ?_
    rintro c0 rfl
    obtain ⟨c1, he, hw, hcan⟩ := hroot
    cases he
    cases n with
    | zero => simpa [put] using cx
    | succ n =>
      have hs' : sub dig k n 1 (c0 (dig k 0)) = branch c := by simpa [sub] using hs
      rw [put_succ dig k x n 1 _ c hs']
      have e : 1 + n = n + 1 := by omega
      rw [e]
      have hp' : proper (upd c (dig k (n + 1)) x) := by
        rcases hp with h0 | h0
        · exact absurd h0 (by omega)
        · exact h0
      have hcc : Canon (branch c) := by rw [← hs']; exact canon_sub dig k n 1 _ (hcan _)
      have hcb : Canon (branch (upd c (dig k (n + 1)) x)) := by
        refine ⟨hp', ?_⟩
        intro d
        by_cases hd : d = dig k (n + 1)
        · simpa [upd, hd] using cx
        · simpa [upd, hd] using hcc.2 d
      exact canon_put_branch dig k _ (by simp [isBranch]) hcb n 1 _ (hcan _)
        (onRoute_mono dig k (n + 1) n 1 _ (by simpa [onRoute] using hr) (by omega))
  cases hi with
  | absent D hr hs => exact h
  | plain D w c hr hs hk h1 =>
    refine main D s.t c empty h hr hs ?_ (by simp [Canon]) (by simp [WF]) (by intro e he; simp [leaves] at he)
    by_cases h0 : D = 0
    · exact Or.inl h0
    · right
      have h1 : ∀ d kT vT, ¬ single (upd c (dig k D) empty) d kT vT := by
        rcases h1 with a | a
        · exact absurd a h0
        · exact a
      have hpc : proper c := by
        obtain ⟨c0, ht, hw, hcan⟩ := h
        obtain ⟨n, rfl⟩ : ∃ n, D = n + 1 := ⟨D - 1, by omega⟩
        rw [ht] at hs
        have hs' : sub dig k n 1 (c0 (dig k 0)) = branch c := by simpa [sub] using hs
        have : Canon (branch c) := by rw [← hs']; exact canon_sub dig k n 1 _ (hcan _)
        exact this.1
      constructor
      · apply Classical.byContradiction
        intro hno
        apply hpc.2
        refine ⟨dig k D, by rw [hk]; simp [isLeaf], ?_⟩
        intro d' hd'
        apply Classical.byContradiction
        intro hne
        exact hno ⟨d', by simpa [upd, hd'] using hne⟩
      · rintro ⟨d, hl, hu⟩
        cases hc : upd c (dig k D) empty d with
        | empty => rw [hc] at hl; exact hl
        | branch _ => rw [hc] at hl; exact hl
        | leaf kT vT => exact h1 d kT vT ⟨hc, hu⟩
  | collapse D E w c cE d kT vT hr hs hk h1 hE ho hsE hpE =>
    have hw : WF dig 0 s.t := by obtain ⟨c0, ht, hw, _⟩ := h; exact hw
    obtain ⟨ha, hne, _⟩ := collapse_split dig hw hr hs hk h1 hE ho
    refine main E s.t cE (leaf kT vT) h (onRoute_mono dig k _ _ _ _ hr (by omega)) hsE ?_ (by simp [Canon]) (by simp [WF]) ?_
    · rcases hpE with h0 | ⟨d', hd', hne'⟩
      · exact Or.inl h0
      · right
        refine ⟨⟨d', by simpa [upd, hd'] using hne'⟩, ?_⟩
        rintro ⟨d0, hl, hu⟩
        have e0 : d0 = dig k E := by
          apply Classical.byContradiction
          intro hx
          have := hu (dig k E) (fun e => hx e.symm)
          simp [upd] at this
        have := hu d' (by rw [e0]; exact hd')
        simp [upd, hd'] at this
        exact hne' this
    · intro e he
      simp [leaves] at he
      rw [he]
      exact agree_mono dig ha (by omega)

/-- C01, C02: after a deletion the key is gone and every other key as before. -/
theorem del_get {k : K} {s s' : Cont K V} (h : Root dig s.t) (hi : Del dig k s s') (q : K) :
    get dig q 0 s'.t = if k = q then none else get dig q 0 s.t := by
  have hw : WF dig 0 s.t := by obtain ⟨c0, ht, hw, _⟩ := h; exact hw
  have ho : ∀ (D : Nat) q (o : Option V), ¬ agree dig q k 0 (D + 1) → (if k = q then none else o) = o := by
    intro D q o ha
    exact if_neg (fun e => ha (by rw [e]; exact agree_refl dig _ _ _))
  cases hi with
  | absent D hr hs =>
    by_cases hq : k = q
    · subst hq
      rw [if_pos rfl, get_sub dig k (D + 1) 0 s.t hr k (agree_refl dig _ _ _)]
      rcases hs with hs | ⟨k', w, hs, hk⟩
      · rw [hs]; simp [get]
      · rw [hs]; simp [get, hk]
    · rw [if_neg hq]
  | plain D w c hr hs hk h1 =>
    refine get_put dig k _ _ _ hr (fun q o => if k = q then none else o) ?_ (ho D) q
    intro q
    rw [sub_of_branch dig hs, hk]
    simp only [get]
    split <;> rfl
  | collapse D E w c cE d kT vT hr hs hk h1 hE hor hsE hpE =>
    refine get_put dig k _ _ _ (onRoute_mono dig k _ _ _ _ hr (by omega)) (fun q o => if k = q then none else o) ?_ (ho E) q
    intro q
    obtain ⟨ha, hne, hsp⟩ := collapse_split dig hw hr hs hk h1 hE hor
    have hsp := hsp (D - (E + 1)) (by omega)
    have e1 : D - (D - (E + 1)) = E + 1 := by omega
    rw [e1] at hsp
    have e2 : E + 1 + (D - (E + 1)) = D := by omega
    rw [hsp, get_split dig k w kT vT _ (E + 1) (agree_shift dig (by rw [e2]; exact ha)) (by rw [e2]; exact hne)]
    simp only [get]
    by_cases hq : k = q
    · subst hq
      rw [if_pos rfl, if_neg (fun e => hne (by rw [e]))]
    · simp [hq]

/-- C03, C04: deletions keep the totals exact. -/
theorem del_totals {k : K} {s s' : Cont K V} (h : Root dig s.t) (ht : Totals s) (hi : Del dig k s s') : Totals s' := by
  have hw : WF dig 0 s.t := by obtain ⟨c0, ht, hw, _⟩ := h; exact hw
  obtain ⟨hl, hd⟩ := ht
  cases hi with
  | absent D hr hs => exact ⟨hl, hd⟩
  | plain D w c hr hs hk h1 =>
    obtain ⟨a, b, h1, h2, h3, h4⟩ := totals_put dig k _ s.t empty hr
    rw [sub_of_branch dig hs, hk] at h1 h2
    simp [leaves, lsum] at h1 h2 h3 h4
    constructor <;> simp only <;> omega
  | collapse D E w c cE d kT vT hr hs hk h1 hE hor hsE hpE =>
    obtain ⟨ha, hne, hsp⟩ := collapse_split dig hw hr hs hk h1 hE hor
    have hsp := hsp (D - (E + 1)) (by omega)
    have e1 : D - (D - (E + 1)) = E + 1 := by omega
    rw [e1] at hsp
    have e2 : E + 1 + (D - (E + 1)) = D := by omega
    obtain ⟨a, b, h1, h2, h3, h4⟩ := totals_put dig k (E + 1) s.t (leaf kT vT) (onRoute_mono dig k _ _ _ _ hr (by omega))
    obtain ⟨x1, x2⟩ := split_totals dig k w kT vT _ (E + 1) (agree_shift dig (by rw [e2]; exact ha)) (by rw [e2]; exact hne)
    rw [hsp] at h1 h2
    rw [x1] at h1; rw [x2, e2] at h2
    simp [leaves, lsum] at h3 h4
    constructor <;> simp only <;> omega

/-! ### histories -/

inductive Op (K V : Type)
  | ins (k : K) (v : V)
  | del (k : K)

/-- The mathematical map. -/
def Op.model : Op K V → (K → Option V) → K → Option V
  | .ins k v, m => fun q => if k = q then some v else m q
  | .del k, m => fun q => if k = q then none else m q

def Op.step : Op K V → Cont K V → Cont K V → Prop
  | .ins k v => Ins dig k v
  | .del k => Del dig k

def new : Cont K V := ⟨branch fun _ => empty, 0, 0⟩

/-- Containers reached from a new one by a sequence of operations. -/
inductive Reach : List (Op K V) → Cont K V → Prop
  | new : Reach [] new
  | step {ops s s'} (o : Op K V) : Reach ops s → o.step dig s s' → Reach (ops ++ [o]) s'

def modelOf (ops : List (Op K V)) : K → Option V := ops.foldl (fun m o => o.model m) fun _ => none

/-- C01, C02, C03, C04 for every history: the container is the mathematical map,
    well formed and canonical, and both totals are exact. -/
theorem history {ops : List (Op K V)} {s : Cont K V} (h : Reach dig ops s) :
    Root dig s.t ∧ Totals s ∧ ∀ q, get dig q 0 s.t = modelOf ops q := by
  induction h with
  | new =>
    refine ⟨⟨_, rfl, ?_, ?_⟩, ?_, ?_⟩
    · intro d; simp [WF, leaves]
    · intro d; simp [Canon]
    · constructor
      · simp only [new, count, leaves]; rfl
      · simp only [new, levels, leaves]; rw [show (fun _ : Fin 16 => ([] : List (Entry K V))) = fun _ => leaves (0 + 1) empty from rfl, leaves_empty_fun]; rfl
    · intro q; simp [new, get, modelOf]
  | step o hr hs ih =>
    obtain ⟨hR, hT, hG⟩ := ih
    cases o with
    | ins k v =>
      refine ⟨ins_root dig hR hs, ins_totals dig hT hs, ?_⟩
      intro q
      rw [ins_get dig hs q, hG q]
      simp [modelOf, Op.model]
    | del k =>
      refine ⟨del_root dig hR hs, del_totals dig hR hT hs, ?_⟩
      intro q
      rw [del_get dig hR hs q, hG q]
      simp [modelOf, Op.model]

/-- C03: the length is the number of distinct keys that a lookup finds. -/
theorem length_is_keys {ops : List (Op K V)} {s : Cont K V} (h : Reach dig ops s) :
    s.len = ((leaves 0 s.t).map (·.1)).length ∧ ((leaves 0 s.t).map (·.1)).Nodup ∧
    ∀ q, q ∈ (leaves 0 s.t).map (·.1) ↔ modelOf ops q ≠ none := by
  obtain ⟨hR, hT, hG⟩ := history dig h
  have hw : WF dig 0 s.t := by obtain ⟨c0, ht, hw, _⟩ := hR; exact hw
  refine ⟨by simpa [count] using hT.1, nodup_keys dig hw, ?_⟩
  intro q
  rw [← hG q]
  constructor
  · intro hm
    obtain ⟨⟨k, v, m⟩, he, rfl⟩ := List.mem_map.1 hm
    rw [(get_iff dig hw).2 ⟨m, he⟩]; simp
  · intro hne
    cases hg : get dig q 0 s.t with
    | none => exact absurd hg hne
    | some v =>
      obtain ⟨m, hm⟩ := (get_iff dig hw).1 hg
      exact List.mem_map.2 ⟨_, hm, rfl⟩

/-! ### levels and shared digits -/

/-- No other key shares the digits that lead to a leaf. -/
theorem level_alone : ∀ (t : Node K V) (L : Nat), WF dig L t → ∀ e ∈ leaves L t, ∀ e' ∈ leaves L t,
    L ≤ e.2.2 ∧ (agree dig e'.1 e.1 L (e.2.2 - L) → e'.1 = e.1) := by
  intro t
  induction t with
  | empty => intro L _ e he; simp [leaves] at he
  | leaf k v =>
    intro L _ e he e' he'
    simp [leaves] at he he'
    subst he; subst he'
    exact ⟨Nat.le_refl _, fun _ => rfl⟩
  | branch c ih =>
    intro L hw e he e' he'
    obtain ⟨d, hd⟩ := mem_leaves_branch.1 he
    obtain ⟨d', hd'⟩ := mem_leaves_branch.1 he'
    have hL := (ih d (L + 1) (hw d).1 e hd e hd).1
    refine ⟨by omega, ?_⟩
    intro ha
    have e1 : e.2.2 - L = (e.2.2 - (L + 1)) + 1 := by omega
    rw [e1, agree_succ] at ha
    have h1 := (hw d).2 e hd
    have h2 := (hw d').2 e' hd'
    have : d' = d := by rw [← h1, ← h2]; exact ha.1
    rw [this] at hd'
    exact (ih d (L + 1) (hw d).1 e hd e' hd').2 ha.2

/-- Below the top, another key shares all digits above a leaf. -/
theorem level_shared : ∀ (t : Node K V) (L : Nat), WF dig L t → Canon t → isBranch t → ∀ e ∈ leaves L t,
    L + 1 ≤ e.2.2 ∧ ∃ e' ∈ leaves L t, e'.1 ≠ e.1 ∧ agree dig e'.1 e.1 L (e.2.2 - 1 - L) := by
  intro t
  induction t with
  | empty => intro L _ _ h; exact absurd h (by simp [isBranch])
  | leaf _ _ => intro L _ _ h; exact absurd h (by simp [isBranch])
  | branch c ih =>
    intro L hw hc _ e he
    obtain ⟨d, hd⟩ := mem_leaves_branch.1 he
    by_cases hb : isBranch (c d)
    · obtain ⟨h1, e', he', hne, ha⟩ := ih d (L + 1) (hw d).1 (hc.2 d) hb e hd
      refine ⟨by omega, e', mem_leaves_branch.2 ⟨d, he'⟩, hne, ?_⟩
      have e1 : e.2.2 - 1 - L = (e.2.2 - 1 - (L + 1)) + 1 := by omega
      rw [e1, agree_succ]
      exact ⟨by rw [(hw d).2 e hd, (hw d).2 e' he'], ha⟩
    · have hm : e.2.2 = L + 1 := by
        cases hcd : c d with
        | empty => rw [hcd] at hd; simp [leaves] at hd
        | leaf k v => rw [hcd] at hd; simp [leaves] at hd; rw [hd]
        | branch _ => rw [hcd] at hb; exact absurd (by simp [isBranch]) hb
      refine ⟨by omega, ?_⟩
      obtain ⟨e1, he1, e2, he2, hne⟩ := two_keys dig hw hc
      have z : e.2.2 - 1 - L = 0 := by omega
      rw [z]
      by_cases hk : e1.1 = e.1
      · exact ⟨e2, he2, fun h => hne (hk.trans h.symm), agree_zero dig _ _ _⟩
      · exact ⟨e1, he1, hk, agree_zero dig _ _ _⟩

/-- C04: a key is stored at the level that counts the leading digits it shares with the
    stored key that shares most (0 if none shares any). -/
theorem level_is_max_shared {t : Node K V} (h : Root dig t) {k : K} {v : V} {m : Nat} (he : (k, v, m) ∈ leaves 0 t) :
    1 ≤ m ∧ (∀ q ∈ (leaves 0 t).map (·.1), q ≠ k → ¬ agree dig q k 0 m) ∧
    (m - 1 = 0 ∨ ∃ q ∈ (leaves 0 t).map (·.1), q ≠ k ∧ agree dig q k 0 (m - 1)) := by
  obtain ⟨c, rfl, hw, hc⟩ := h
  obtain ⟨d, hd⟩ := mem_leaves_branch.1 he
  have hL := (level_alone dig (c d) 1 (hw d).1 _ hd _ hd).1
  simp only at hL
  refine ⟨hL, ?_, ?_⟩
  · intro q hq hne ha
    obtain ⟨e', he', rfl⟩ := List.mem_map.1 hq
    exact hne ((level_alone dig _ 0 hw _ he _ he').2 (by simpa using ha))
  · by_cases hb : isBranch (c d)
    · right
      obtain ⟨h1, e', he', hne, ha⟩ := level_shared dig (c d) 1 (hw d).1 (hc d) hb _ hd
      simp only at h1 hne ha
      refine ⟨e'.1, List.mem_map.2 ⟨e', mem_leaves_branch.2 ⟨d, he'⟩, rfl⟩, hne, ?_⟩
      have e1 : m - 1 = (m - 1 - 1) + 1 := by omega
      rw [e1, agree_succ]
      exact ⟨by have a := (hw d).2 _ hd; have b := (hw d).2 _ he'; simp only at a; rw [a, b], by simpa using ha⟩
    · left
      cases hcd : c d with
      | empty => rw [hcd] at hd; simp [leaves] at hd
      | leaf k' v' => rw [hcd] at hd; simp [leaves] at hd; omega
      | branch _ => rw [hcd] at hb; exact absurd (by simp [isBranch]) hb

/-- Keys that differ within the first `M` digits are all stored above level `M`. -/
theorem level_bound {t : Node K V} (h : Root dig t) (M : Nat)
    (hM : ∀ a b : K, a ≠ b → ¬ agree dig a b 0 M) {k : K} {v : V} {m : Nat} (he : (k, v, m) ∈ leaves 0 t) : m - 1 < M ∨ m - 1 = 0 := by
  obtain ⟨_, _, hs⟩ := level_is_max_shared dig h he
  rcases hs with h0 | ⟨q, _, hne, ha⟩
  · exact Or.inr h0
  · left
    apply Classical.byContradiction
    intro hlt
    exact hM q k hne (agree_mono dig ha (by omega))

/-! ### every call meets one of the contract's cases -/

theorem route_ends (k : K) : ∀ (t : Node K V) (L : Nat), ∃ n, onRoute dig k n L t ∧ ¬ isBranch (sub dig k n L t) := by
  intro t
  induction t with
  | empty => intro L; exact ⟨0, by simp [onRoute], by simp [sub, isBranch]⟩
  | leaf _ _ => intro L; exact ⟨0, by simp [onRoute], by simp [sub, isBranch]⟩
  | branch c ih =>
    intro L
    obtain ⟨n, h1, h2⟩ := ih (dig k L) (L + 1)
    exact ⟨n + 1, by simpa [onRoute] using h1, by simpa [sub] using h2⟩

theorem root_route_ends (k : K) {t : Node K V} (h : Root dig t) :
    ∃ D, onRoute dig k (D + 1) 0 t ∧ ¬ isBranch (sub dig k (D + 1) 0 t) := by
  obtain ⟨n, h1, h2⟩ := route_ends dig k t 0
  cases n with
  | zero =>
    obtain ⟨c, rfl, _⟩ := h
    exact absurd (show isBranch (sub dig k 0 0 (branch c)) by simp [sub, isBranch]) h2
  | succ D => exact ⟨D, h1, h2⟩

/-- The first digit in which two keys differ. -/
theorem parting {a b : K} {M : Nat} (h : ¬ agree dig a b 0 M) : ∃ S, S < M ∧ agree dig a b 0 S ∧ dig a S ≠ dig b S := by
  induction M with
  | zero => exact absurd (agree_zero dig a b 0) h
  | succ M ih =>
    by_cases hm : agree dig a b 0 M
    · refine ⟨M, by omega, hm, ?_⟩
      intro he
      apply h
      intro i hi
      by_cases e : i = M
      · subst e; simpa using he
      · exact hm i (by omega)
    · obtain ⟨S, h1, h2, h3⟩ := ih hm
      exact ⟨S, by omega, h2, h3⟩

theorem ins_total (M : Nat) (hM : ∀ a b : K, a ≠ b → ¬ agree dig a b 0 M) (k : K) (v : V) {s : Cont K V}
    (h : Root dig s.t) : ∃ s', Ins dig k v s s' := by
  have hw : WF dig 0 s.t := by obtain ⟨c0, ht, hw, _⟩ := h; exact hw
  obtain ⟨D, hr, hb⟩ := root_route_ends dig k h
  cases hs : sub dig k (D + 1) 0 s.t with
  | empty => exact ⟨_, Ins.miss s D hr hs⟩
  | branch c => rw [hs] at hb; exact absurd (by simp [isBranch]) hb
  | leaf k' w =>
    by_cases hk : k' = k
    · subst hk; exact ⟨_, Ins.hit s D w hr hs⟩
    · have hag : agree dig k' k 0 (D + 1) := by
        refine agree_of_mem_sub dig k (D + 1) 0 s.t hw hr (k', w, D + 1) ?_
        rw [hs]; simp [leaves]
      obtain ⟨S, _, hS, hne⟩ := parting dig (hM k' k hk)
      have : D + 1 ≤ S := by
        apply Classical.byContradiction
        intro hlt
        exact hne (by have := hag S (by omega); simpa using this)
      obtain ⟨m, rfl⟩ : ∃ m, S = D + 1 + m := ⟨S - (D + 1), by omega⟩
      exact ⟨_, Ins.conflict s D m k' w hr hs hk hS hne⟩

theorem route_branch {k : K} {t : Node K V} {D : Nat} (hr : onRoute dig k (D + 1) 0 t) :
    ∀ i, i ≤ D → ∃ c, sub dig k i 0 t = branch c := by
  have gen : ∀ (n L : Nat) (t : Node K V), onRoute dig k (n + 1) L t → ∃ c, sub dig k n L t = branch c := by
    intro n
    induction n with
    | zero =>
      intro L t h
      cases t with
      | branch c => exact ⟨c, rfl⟩
      | empty => exact absurd h (by simp [onRoute])
      | leaf _ _ => exact absurd h (by simp [onRoute])
    | succ n ih =>
      intro L t h
      cases t with
      | branch c => rw [sub]; exact ih _ _ (by simpa [onRoute] using h)
      | empty => exact absurd h (by simp [onRoute])
      | leaf _ _ => exact absurd h (by simp [onRoute])
  intro i hi
  exact gen i 0 t (onRoute_mono dig k _ _ _ _ hr (by omega))

theorem del_total (k : K) {s : Cont K V} (h : Root dig s.t) : ∃ s', Del dig k s s' := by
  obtain ⟨D, hr, hb⟩ := root_route_ends dig k h
  cases hs : sub dig k (D + 1) 0 s.t with
  | empty => exact ⟨_, Del.absent s D hr (Or.inl hs)⟩
  | branch c => rw [hs] at hb; exact absurd (by simp [isBranch]) hb
  | leaf k' w =>
    by_cases hk : k' = k
    · subst hk
      obtain ⟨c, hc⟩ := route_branch dig hr D (Nat.le_refl D)
      have hl : c (dig k' D) = leaf k' w := by rw [← sub_of_branch dig hc, hs]
      by_cases hp : D = 0 ∨ ∀ d kT vT, ¬ single (upd c (dig k' D) empty) d kT vT
      · exact ⟨_, Del.plain s D w c hr hc hl hp⟩
      · have hD : D ≠ 0 := fun e => hp (Or.inl e)
        have : ∃ d kT vT, single (upd c (dig k' D) empty) d kT vT := by
          apply Classical.byContradiction
          intro hn
          exact hp (Or.inr fun d kT vT hh => hn ⟨d, kT, vT, hh⟩)
        obtain ⟨d, kT, vT, h1⟩ := this
        -- the lowest level above D with another entry, or the top
        have search : ∀ n, n < D → ∃ E, E ≤ n ∧ (∀ i, E < i → i ≤ n → ∃ c, sub dig k' i 0 s.t = branch c ∧ ∀ d, d ≠ dig k' i → c d = empty) ∧
            ∃ cE, sub dig k' E 0 s.t = branch cE ∧ (E = 0 ∨ ∃ d, d ≠ dig k' E ∧ cE d ≠ empty) := by
          intro n
          induction n with
          | zero =>
            intro _
            obtain ⟨c0, h0⟩ := route_branch dig hr 0 (by omega)
            exact ⟨0, Nat.le_refl 0, fun i a b => absurd a (by omega), c0, h0, Or.inl rfl⟩
          | succ n ih =>
            intro hn
            obtain ⟨c0, h0⟩ := route_branch dig hr (n + 1) (by omega)
            by_cases he : ∃ d, d ≠ dig k' (n + 1) ∧ c0 d ≠ empty
            · exact ⟨n + 1, Nat.le_refl _, fun i a b => absurd a (by omega), c0, h0, Or.inr he⟩
            · obtain ⟨E, e1, e2, e3⟩ := ih (by omega)
              refine ⟨E, by omega, ?_, e3⟩
              intro i a b
              by_cases hi : i = n + 1
              · subst hi
                refine ⟨c0, h0, ?_⟩
                intro d hd
                apply Classical.byContradiction
                intro hne
                exact he ⟨d, hd, hne⟩
              · exact e2 i a (by omega)
        obtain ⟨E, e1, e2, cE, e3, e4⟩ := search (D - 1) (by omega)
        exact ⟨_, Del.collapse s D E w c cE d kT vT hr hc hl h1 (by omega) (fun i a b => e2 i a (by omega)) e3 e4⟩
    · exact ⟨_, Del.absent s D hr (Or.inr ⟨k', w, hs, hk⟩)⟩

/-! ### C05: only the contents matter -/

/-- The tree without the values. -/
def shape : Node K V → Node K Unit
  | empty => empty
  | leaf k _ => leaf k ()
  | branch c => branch fun d => shape (c d)

theorem shape_leaves : ∀ (t : Node K V) (L : Nat), leaves L (shape t) = (leaves L t).map fun e => (e.1, (), e.2.2) := by
  intro t
  induction t with
  | empty => intro L; simp [shape, leaves]
  | leaf k v => intro L; simp [shape, leaves]
  | branch c ih =>
    intro L
    simp only [shape, leaves, List.map_flatMap]
    congr 1
    funext d
    exact ih d (L + 1)

theorem shape_get (k : K) : ∀ (t : Node K V) (L : Nat), get dig k L (shape t) = (get dig k L t).map fun _ => () := by
  intro t
  induction t with
  | empty => intro L; simp [shape, get]
  | leaf k' v => intro L; simp only [shape, get]; split <;> simp
  | branch c ih => intro L; simp only [shape, get]; exact ih _ _

theorem shape_wf : ∀ (t : Node K V) (L : Nat), WF dig L t → WF dig L (shape t) := by
  intro t
  induction t with
  | empty => intro L _; simp [shape, WF]
  | leaf _ _ => intro L _; simp [shape, WF]
  | branch c ih =>
    intro L h d
    refine ⟨ih d _ (h d).1, ?_⟩
    intro e he
    simp only at he
    rw [shape_leaves] at he
    obtain ⟨e0, h0, rfl⟩ := List.mem_map.1 he
    exact (h d).2 e0 h0

theorem shape_empty (t : Node K V) : shape t = empty ↔ t = empty := by
  cases t <;> simp [shape]

theorem shape_leaf (t : Node K V) : isLeaf (shape t) ↔ isLeaf t := by
  cases t <;> simp [shape, isLeaf]

theorem shape_canon : ∀ (t : Node K V), Canon t → Canon (shape t) := by
  intro t
  induction t with
  | empty => intro _; simp [shape, Canon]
  | leaf _ _ => intro _; simp [shape, Canon]
  | branch c ih =>
    rintro ⟨⟨⟨d, hd⟩, hs⟩, hc⟩
    refine ⟨⟨⟨d, fun h => hd ((shape_empty _).1 h)⟩, ?_⟩, fun d => ih d (hc d)⟩
    rintro ⟨d, hl, hu⟩
    exact hs ⟨d, (shape_leaf _).1 hl, fun d' h' => (shape_empty _).1 (hu d' h')⟩

theorem shape_root {t : Node K V} (h : Root dig t) : Root dig (shape t) := by
  obtain ⟨c, rfl, hw, hc⟩ := h
  exact ⟨fun d => shape (c d), rfl, shape_wf dig _ _ hw, fun d => shape_canon _ (hc d)⟩

/-- C05: the same keys, whatever the values and the histories, give the same structure;
    hence the same iteration order, the same length and the same depth sum. -/
theorem same_keys_same_structure {W : Type} {ops : List (Op K V)} {s : Cont K V} {ops' : List (Op K W)} {s' : Cont K W}
    (h : Reach dig ops s) (h' : Reach dig ops' s')
    (hk : ∀ q, modelOf ops q = none ↔ modelOf ops' q = none) :
    shape s.t = shape s'.t ∧ (leaves 0 s.t).map (·.1) = (leaves 0 s'.t).map (·.1) ∧ s.len = s'.len ∧ s.dep = s'.dep := by
  obtain ⟨hR, hT, hG⟩ := history dig h
  obtain ⟨hR', hT', hG'⟩ := history dig h'
  have he : shape s.t = shape s'.t := by
    refine unique_root dig _ _ (shape_root dig hR) (shape_root dig hR') ?_
    intro q
    rw [shape_get, shape_get, hG q, hG' q]
    have := hk q
    cases h1 : modelOf ops q <;> cases h2 : modelOf ops' q <;> simp [h1, h2] at this <;> simp
  have hl : (leaves 0 s.t).map (fun e => (e.1, (), e.2.2)) = (leaves 0 s'.t).map (fun e => (e.1, (), e.2.2)) := by
    rw [← shape_leaves, ← shape_leaves, he]
  refine ⟨he, ?_, ?_, ?_⟩
  · have := congrArg (List.map (fun e : K × Unit × Nat => e.1)) hl
    simpa [List.map_map, Function.comp_def] using this
  · have := congrArg List.length hl
    rw [hT.1, hT'.1]
    simpa [count] using this
  · have key : ∀ {X : Type} (es : List (Entry K X)), lsum es = lsum (es.map fun e => (e.1, (), e.2.2)) := by
      intro X es
      induction es with
      | nil => rfl
      | cons e es ih => simp [lsum, ← ih]
    rw [hT.2, hT'.2, levels, levels, key, hl, ← key]

/-! ### consequences the verifier assumes of the totals (cx.total_facts) -/

theorem total_len_zero {s : Cont K V} (h : Root dig s.t) (ht : Totals s) {c : Fin 16 → Node K V} (hc : s.t = branch c) :
    s.len = 0 ↔ ∀ d, c d = empty := by
  obtain ⟨c', hc', hw, hcan⟩ := h
  rw [hc] at hc'; cases hc'
  rw [ht.1, count, hc, List.length_eq_zero_iff]
  constructor
  · intro hn d
    cases hcd : c d with
    | empty => rfl
    | leaf k v =>
      have : (k, v, 1) ∈ leaves 0 (branch c) := mem_leaves_branch.2 ⟨d, by rw [hcd]; simp [leaves]⟩
      rw [hn] at this; simp at this
    | branch c1 =>
      have hw0 : WF dig 0 (branch c) := by rw [← hc]; exact hw
      have h1 := (hw0 d).1
      have h2 := hcan d
      rw [hcd] at h1 h2
      obtain ⟨e, he, _⟩ := two_keys dig h1 h2
      have : e ∈ leaves 0 (branch c) := mem_leaves_branch.2 ⟨d, by rw [hcd]; exact he⟩
      rw [hn] at this; simp at this
  · intro hn
    cases hl : leaves 0 (branch c) with
    | nil => rfl
    | cons e es =>
      have : e ∈ leaves 0 (branch c) := by rw [hl]; simp
      obtain ⟨d, hd⟩ := mem_leaves_branch.1 this
      rw [hn d] at hd; simp [leaves] at hd

theorem lsum_mem {es : List (Entry K V)} {e : Entry K V} (h : e ∈ es) : e.2.2 - 1 ≤ lsum es := by
  induction es with
  | nil => simp at h
  | cons a es ih =>
    simp only [List.mem_cons] at h
    rcases h with h | h
    · subst h; simp [lsum]
    · have := ih h; simp [lsum]; omega

theorem lsum_zero {es : List (Entry K V)} (h : ∀ e ∈ es, e.2.2 - 1 = 0) : lsum es = 0 := by
  induction es with
  | nil => rfl
  | cons a es ih => simp [lsum, h a (by simp), ih (fun e he => h e (by simp [he]))]

theorem total_dep_zero {s : Cont K V} (h : Root dig s.t) (ht : Totals s) {c : Fin 16 → Node K V} (hc : s.t = branch c) :
    s.dep = 0 ↔ ∀ d, ¬ isBranch (c d) := by
  obtain ⟨c', hc', hw, hcan⟩ := h
  rw [hc] at hc'; cases hc'
  have hw0 : WF dig 0 (branch c) := by rw [← hc]; exact hw
  rw [ht.2, levels, hc]
  constructor
  · intro hz d hb
    cases hcd : c d with
    | empty => rw [hcd] at hb; exact hb
    | leaf _ _ => rw [hcd] at hb; exact hb
    | branch c1 =>
      have h1 := (hw0 d).1
      have h2 := hcan d
      rw [hcd] at h1 h2
      obtain ⟨e, he, _⟩ := two_keys dig h1 h2
      have hl := (level_shared dig _ _ h1 h2 (by simp [isBranch]) e he).1
      have hm : e ∈ leaves 0 (branch c) := mem_leaves_branch.2 ⟨d, by rw [hcd]; exact he⟩
      have := lsum_mem hm
      omega
  · intro hn
    apply lsum_zero
    intro e he
    obtain ⟨d, hd⟩ := mem_leaves_branch.1 he
    cases hcd : c d with
    | empty => rw [hcd] at hd; simp [leaves] at hd
    | leaf k v => rw [hcd] at hd; simp [leaves] at hd; rw [hd]; rfl
    | branch c1 => exact absurd (by rw [hcd]; simp [isBranch]) (hn d)

theorem leaves_level : ∀ (t : Node K V) (L : Nat), ∀ e ∈ leaves L t, L ≤ e.2.2 := by
  intro t
  induction t with
  | empty => intro L e he; simp [leaves] at he
  | leaf k v => intro L e he; simp [leaves] at he; rw [he]; exact Nat.le_refl _
  | branch c ih =>
    intro L e he
    obtain ⟨d, hd⟩ := mem_leaves_branch.1 he
    have := ih d (L + 1) e hd
    omega

theorem two_of_mem {es : List (Entry K V)} {a b : Entry K V} (ha : a ∈ es) (hb : b ∈ es) (h : a ≠ b) {n : Nat}
    (hl : ∀ e ∈ es, n ≤ e.2.2 - 1) : 2 ≤ es.length ∧ 2 * n ≤ lsum es := by
  cases es with
  | nil => simp at ha
  | cons x es =>
    cases es with
    | nil => simp at ha hb; exact absurd (ha.trans hb.symm) h
    | cons y es =>
      have h1 := hl x (by simp)
      have h2 := hl y (by simp)
      constructor
      · simp
      · simp [lsum]; omega

/-- A route that goes down to level `D` passes a branch with two keys of level `D` or more. -/
theorem total_route {s : Cont K V} (h : Root dig s.t) (ht : Totals s) (k : K) {D : Nat} (hD : D ≠ 0)
    (hr : onRoute dig k (D + 1) 0 s.t) : 2 ≤ s.len ∧ 2 * D ≤ s.dep := by
  obtain ⟨c, hc, hw, hcan⟩ := h
  obtain ⟨n, rfl⟩ : ∃ n, D = n + 1 := ⟨D - 1, by omega⟩
  have hb : isBranch (sub dig k (n + 1) 0 s.t) := by
    have gen : ∀ (n L : Nat) (t : Node K V), onRoute dig k (n + 1) L t → isBranch (sub dig k n L t) := by
      intro n
      induction n with
      | zero =>
        intro L t h
        cases t with
        | branch _ => simp [sub, isBranch]
        | empty => exact absurd h (by simp [onRoute])
        | leaf _ _ => exact absurd h (by simp [onRoute])
      | succ n ih =>
        intro L t h
        cases t with
        | branch c => rw [sub]; exact ih _ _ (by simpa [onRoute] using h)
        | empty => exact absurd h (by simp [onRoute])
        | leaf _ _ => exact absurd h (by simp [onRoute])
    exact gen _ _ _ hr
  have hw1 : WF dig (n + 1) (sub dig k (n + 1) 0 s.t) := by simpa using wf_sub dig k (n + 1) 0 s.t hw
  have hc1 : Canon (sub dig k (n + 1) 0 s.t) := by
    rw [hc]; simp only [sub]; exact canon_sub dig k n 1 _ (hcan _)
  obtain ⟨pre, post, hp, _⟩ := leaves_put dig k (n + 1) 0 s.t (onRoute_mono dig k _ _ _ _ hr (by omega))
  simp only [Nat.zero_add] at hp
  cases hs : sub dig k (n + 1) 0 s.t with
  | empty => rw [hs] at hb; exact absurd hb (by simp [isBranch])
  | leaf _ _ => rw [hs] at hb; exact absurd hb (by simp [isBranch])
  | branch c1 =>
    rw [hs] at hw1 hc1 hp
    obtain ⟨a, ha, b, hb', hne⟩ := two_keys dig hw1 hc1
    obtain ⟨h1, h2⟩ := two_of_mem ha hb' (fun e => hne (by rw [e])) (n := n + 1) (by
      intro e he
      obtain ⟨d, hd⟩ := mem_leaves_branch.1 he
      have := leaves_level _ _ e hd
      omega)
    rw [ht.1, ht.2, count, levels, hp]
    simp only [List.length_append, lsum_append]
    omega

/-! ### C06: iteration -/

/-- What scan_post says of one branch's scan: the slots in order, a visit for a leaf, the
    branch's own scan for a branch; a false answer ends everything at once. `f seen e` is
    what the callback answers to the visit of `e` after the visits `seen`. -/
def scan (f : List (Entry K V) → Entry K V → Bool) : Nat → Node K V → List (Entry K V) → List (Entry K V) × Bool
  | _, empty, seen => (seen, true)
  | L, leaf k v, seen => (seen ++ [(k, v, L)], f seen (k, v, L))
  | L, branch c, seen => (List.finRange 16).foldl
      (fun r d => if r.2 then scan f (L + 1) (c d) r.1 else r) (seen, true)

/-- Visits of a list of entries, stopping when told to. -/
def visits (f : List (Entry K V) → Entry K V → Bool) : List (Entry K V) → List (Entry K V) → List (Entry K V) × Bool
  | [], seen => (seen, true)
  | e :: es, seen => if f seen e then visits f es (seen ++ [e]) else (seen ++ [e], false)

theorem visits_append (f : List (Entry K V) → Entry K V → Bool) : ∀ (a b seen : List (Entry K V)),
    visits f (a ++ b) seen = if (visits f a seen).2 then visits f b (visits f a seen).1 else visits f a seen := by
  intro a
  induction a with
  | nil => intro b seen; simp [visits]
  | cons e es ih =>
    intro b seen
    simp only [List.cons_append, visits]
    by_cases h : f seen e
    · simp only [h, if_true]; exact ih b _
    · simp [h]

/-- The recursive scan visits exactly the entries, in order, until told to stop. -/
theorem scan_visits (f : List (Entry K V) → Entry K V → Bool) : ∀ (t : Node K V) (L : Nat) (seen : List (Entry K V)),
    scan f L t seen = visits f (leaves L t) seen := by
  intro t
  induction t with
  | empty => intro L seen; simp [scan, leaves, visits]
  | leaf k v =>
    intro L seen
    simp only [scan, leaves, visits]
    by_cases h : f seen (k, v, L)
    · rw [if_pos h, h]
    · rw [if_neg h]; simp at h; rw [h]
  | branch c ih =>
    intro L seen
    have gen : ∀ (ds : List (Fin 16)) (r : List (Entry K V) × Bool), ds.foldl
        (fun r d => if r.2 then scan f (L + 1) (c d) r.1 else r) r =
        if r.2 then visits f (ds.flatMap fun d => leaves (L + 1) (c d)) r.1 else r := by
      intro ds
      induction ds with
      | nil => intro r; simp [visits]; intro h; rw [← h]
      | cons d ds ihd =>
        intro r
        rw [List.foldl_cons, ihd, List.flatMap_cons, visits_append]
        by_cases h : r.2
        · rw [if_pos h, ih d (L + 1) r.1]; simp [h]
        · simp [h]
    rw [scan, gen, leaves]; simp

/-- With a callback that never stops it, everything is visited, once. -/
theorem visits_all (f : List (Entry K V) → Entry K V → Bool) (h : ∀ s e, f s e = true) :
    ∀ es seen, visits f es seen = (seen ++ es, true) := by
  intro es
  induction es with
  | nil => intro seen; simp [visits]
  | cons e es ih => intro seen; simp [visits, h, ih]

/-- What was visited is always a first part of the entries, and after a false answer nothing is. -/
theorem visits_prefix (f : List (Entry K V) → Entry K V → Bool) : ∀ (es seen : List (Entry K V)),
    ∃ done rest, es = done ++ rest ∧ (visits f es seen).1 = seen ++ done ∧
      ((visits f es seen).2 = true → rest = []) := by
  intro es
  induction es with
  | nil => intro seen; exact ⟨[], [], by simp [visits]⟩
  | cons e es ih =>
    intro seen
    by_cases h : f seen e
    · obtain ⟨done, rest, h1, h2, h3⟩ := ih (seen ++ [e])
      refine ⟨e :: done, rest, by simp [h1], ?_, ?_⟩
      · rw [visits, if_pos h, h2]; simp
      · rw [visits, if_pos h]; exact h3
    · refine ⟨[e], es, by simp, ?_, ?_⟩
      · rw [visits, if_neg h]
      · rw [visits, if_neg h]; simp

/-! ### C16: a branch below the top leads to two keys at least, an emptied container is bare -/

theorem emptied {ops : List (Op K V)} {s : Cont K V} (h : Reach dig ops s) (he : ∀ q, modelOf ops q = none) :
    s = new := by
  have hn := same_keys_same_structure dig h (Reach.new (K := K) (V := V)) (by intro q; rw [he q]; simp [modelOf])
  obtain ⟨hs, _, hl, hd⟩ := hn
  have ht : s.t = branch fun _ => empty := by
    obtain ⟨c, hc, _⟩ := (history dig h).1
    rw [hc] at hs ⊢
    simp only [new, shape] at hs
    injection hs with hs
    congr 1
    funext d
    have := congrFun hs d
    exact (shape_empty _).1 this
  cases s
  simp only [new] at ht hl hd ⊢
  simp [ht, hl, hd]

end Amt
