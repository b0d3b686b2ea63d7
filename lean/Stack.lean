/-
Stacks of layers, abstractly.  `V i` is the space of the amplitudes (forward or backward) of layer i,
`R i a b a' b'` the equations of the interface between layers i and i+1.
A chain from k to l is a solution of the equations of all the interfaces in between.
`Exact S k l` is the contract proved for `Simulation.get_S_matrix` from the source:
the pair (a_l, b_k) of a chain is a function of (a_k, b_l), and every (a_k, b_l) has a chain.
-/
universe u

variable {V : Nat → Type u}

def Chain (R : (i : Nat) → V i → V i → V (i+1) → V (i+1) → Prop)
    (k l : Nat) (a b : (i : Nat) → V i) : Prop :=
  ∀ i, k ≤ i → i < l → R i (a i) (b i) (a (i+1)) (b (i+1))

/-- S1 = forward amplitude at the exit, S2 = backward amplitude at the entrance -/
def Exact (R : (i : Nat) → V i → V i → V (i+1) → V (i+1) → Prop) (k l : Nat)
    (S1 : V k → V l → V l) (S2 : V k → V l → V k) : Prop :=
  (∀ a b, Chain R k l a b → a l = S1 (a k) (b l) ∧ b k = S2 (a k) (b l)) ∧
  (∀ (x : V k) (y : V l), ∃ a b, Chain R k l a b ∧ a k = x ∧ b l = y)

variable {R : (i : Nat) → V i → V i → V (i+1) → V (i+1) → Prop}

theorem Chain.mono {k l k' l' : Nat} {a b : (i : Nat) → V i} (h : Chain R k l a b)
    (hk : k ≤ k') (hl : l' ≤ l) : Chain R k' l' a b :=
  fun i h1 h2 => h i (Nat.le_trans hk h1) (Nat.lt_of_lt_of_le h2 hl)

/-- P02: the amplitudes computed layer by layer form one solution of all the interface equations -/
theorem continuity (N : Nat) (a0 : V 0) (bN : V N)
    (S1 : (k l : Nat) → V k → V l → V l) (S2 : (k l : Nat) → V k → V l → V k)
    (ex : ∀ k l, k < l → l ≤ N → Exact R k l (S1 k l) (S2 k l))
    (a b : (i : Nat) → V i)
    -- end layers (contract of _solve_ext)
    (h0a : a 0 = a0) (h0b : b 0 = S2 0 N a0 bN)
    (hNa : a N = S1 0 N a0 bN) (hNb : b N = bN)
    -- inner layers (contract of _solve_int) : the only solution of the two equations
    (uniq : ∀ j, 0 < j → j < N → ∀ x y, x = S1 0 j a0 y → y = S2 j N x bN → x = a j ∧ y = b j)
    (hN : 0 < N) :
    Chain R 0 N a b := by
  obtain ⟨c, d, hch, hc0, hdN⟩ := (ex 0 N hN (Nat.le_refl N)).2 a0 bN
  have tot := (ex 0 N hN (Nat.le_refl N)).1 c d hch
  have key : ∀ j, j ≤ N → c j = a j ∧ d j = b j := by
    intro j hj
    rcases Nat.eq_zero_or_pos j with h | h
    · subst h
      exact ⟨by rw [hc0, h0a], by rw [h0b, tot.2, hc0, hdN]⟩
    · rcases Nat.lt_or_ge j N with hl | hg
      · have l1 := (ex 0 j h hj).1 c d (hch.mono (Nat.le_refl 0) hj)
        have l2 := (ex j N hl (Nat.le_refl N)).1 c d (hch.mono (Nat.zero_le j) (Nat.le_refl N))
        apply uniq j h hl
        · rw [l1.1, hc0]
        · rw [l2.2, hdN]
      · have : j = N := Nat.le_antisymm hj hg
        subst this
        exact ⟨by rw [hNa, tot.1, hc0, hdN], by rw [hNb, hdN]⟩
  intro i h1 h2
  have r := hch i h1 h2
  rw [(key i (Nat.le_of_lt h2)).1, (key i (Nat.le_of_lt h2)).2, (key (i+1) h2).1, (key (i+1) h2).2] at r
  exact r

/-- P04: the matrices of two adjacent parts compose to the matrix of the whole -/
theorem compose (k l m : Nat) (hkl : k < l) (hlm : l < m)
    (A1 : V k → V l → V l) (A2 : V k → V l → V k)
    (B1 : V l → V m → V m) (B2 : V l → V m → V l)
    (C1 : V k → V m → V m) (C2 : V k → V m → V k)
    (eA : Exact R k l A1 A2) (eB : Exact R l m B1 B2) (eC : Exact R k m C1 C2)
    (x : V k) (z : V m) (p q : V l) (_hp : p = A1 x q) (_hq : q = B2 p z)
    -- the coupled equations have one solution
    (uniq : ∀ p' q', p' = A1 x q' → q' = B2 p' z → p' = p ∧ q' = q) :
    C1 x z = B1 p z ∧ C2 x z = A2 x q := by
  obtain ⟨a, b, hch, hak, hbm⟩ := eC.2 x z
  have c := eC.1 a b hch
  have l1 := eA.1 a b (hch.mono (Nat.le_refl k) (Nat.le_of_lt hlm))
  have l2 := eB.1 a b (hch.mono (Nat.le_of_lt hkl) (Nat.le_refl m))
  have h := uniq (a l) (b l) (by rw [l1.1, hak]) (by rw [l2.2, hbm])
  constructor
  · rw [← hak, ← hbm, ← c.1, l2.1, h.1]
  · rw [← hak, ← hbm, ← c.2, l1.2, h.2]

/-- P04: results at the two ends do not depend on how the inside is described, as soon as the
descriptions have the same solutions at the ends -/
theorem same_ends (k l : Nat) (S1 T1 : V k → V l → V l) (S2 T2 : V k → V l → V k)
    (R' : (i : Nat) → V i → V i → V (i+1) → V (i+1) → Prop)
    (eS : Exact R k l S1 S2) (eT : Exact R' k l T1 T2)
    (h : ∀ a b, Chain R k l a b → ∃ a' b', Chain R' k l a' b' ∧ a' k = a k ∧ b' l = b l ∧ a' l = a l ∧ b' k = b k)
    (x : V k) (y : V l) : S1 x y = T1 x y ∧ S2 x y = T2 x y := by
  obtain ⟨a, b, hch, hak, hbl⟩ := eS.2 x y
  obtain ⟨a', b', hch', h1, h2, h3, h4⟩ := h a b hch
  have e := eS.1 a b hch
  have e' := eT.1 a' b' hch'
  constructor
  · rw [← hak, ← hbl, ← e.1, ← h1, ← h2, ← e'.1, h3]
  · rw [← hak, ← hbl, ← e.2, ← h1, ← h2, ← e'.2, h4]

/-- the induction carried out by the loop of get_S_matrix: what the step obligations prove gives Exact -/
theorem induction_step (k i : Nat) (hki : k ≤ i)
    (S1 : V k → V i → V i) (S2 : V k → V i → V k)
    (T1 : V k → V (i+1) → V (i+1)) (T2 : V k → V (i+1) → V k)
    (ex : Exact R k i S1 S2)
    -- step obligation, forward direction
    (fwd : ∀ x w ai bi an bn, ai = S1 x bi → w = S2 x bi → R i ai bi an bn → an = T1 x bn ∧ w = T2 x bn)
    -- step obligation, converse direction
    (bwd : ∀ x bn, ∃ bi an, R i (S1 x bi) bi an bn) :
    Exact R k (i+1) T1 T2 := by
  constructor
  · intro a b h
    have e := ex.1 a b (h.mono (Nat.le_refl k) (Nat.le_succ i))
    exact fwd (a k) (b k) (a i) (b i) (a (i+1)) (b (i+1)) e.1 e.2 (h i hki (Nat.lt_succ_self i))
  · intro x y
    obtain ⟨bi, an, r⟩ := bwd x y
    obtain ⟨a, b, hch, hak, hbi⟩ := ex.2 x bi
    have hai := (ex.1 a b hch).1
    rw [hak, hbi] at hai
    refine ⟨fun j => if h : j = i+1 then h ▸ an else a j, fun j => if h : j = i+1 then h ▸ y else b j, ?_, ?_, ?_⟩
    · intro j h1 h2
      rcases Nat.lt_or_ge j i with hl | hg
      · have n1 : j ≠ i+1 := by omega
        have n2 : j+1 ≠ i+1 := by omega
        simp only [n1, n2, dite_false]
        exact hch j h1 hl
      · have : j = i := by omega
        subst this
        have n1 : j ≠ j+1 := by omega
        simp only [n1, dite_false, dite_true]
        rw [hai, hbi]
        exact r
    · have n1 : k ≠ i+1 := by omega
      simp only [n1, dite_false]
      exact hak
    · simp

/-- before the first interface: the identity matrix is exact for the empty part -/
theorem induction_base [∀ i, Inhabited (V i)] (k : Nat) :
    Exact R k k (fun x _ => x) (fun _ y => y) := by
  constructor
  · intro a b _
    exact ⟨rfl, rfl⟩
  · intro x y
    refine ⟨fun j => if h : j = k then h ▸ x else default, fun j => if h : j = k then h ▸ y else default, ?_, ?_, ?_⟩
    · intro j h1 h2
      omega
    · simp
    · simp

/-- hence a family of matrices built by the loop is exact for every part -/
theorem loop_exact [∀ i, Inhabited (V i)] (k : Nat)
    (S1 : (l : Nat) → V k → V l → V l) (S2 : (l : Nat) → V k → V l → V k)
    (h1 : S1 k = fun x _ => x) (h2 : S2 k = fun _ y => y)
    (fwd : ∀ i, k ≤ i → ∀ x w ai bi an bn, ai = S1 i x bi → w = S2 i x bi → R i ai bi an bn →
        an = S1 (i+1) x bn ∧ w = S2 (i+1) x bn)
    (bwd : ∀ i, k ≤ i → ∀ x bn, ∃ bi an, R i (S1 i x bi) bi an bn)
    (l : Nat) (hl : k ≤ l) : Exact R k l (S1 l) (S2 l) := by
  induction l with
  | zero =>
    have : k = 0 := Nat.le_zero.mp hl
    subst this
    rw [h1, h2]
    exact induction_base 0
  | succ i ih =>
    rcases Nat.lt_or_ge k (i+1) with h | h
    · have hki : k ≤ i := Nat.lt_succ_iff.mp h
      exact induction_step k i hki _ _ _ _ (ih hki) (fwd i hki) (bwd i hki)
    · have : k = i+1 := Nat.le_antisymm hl h
      subst this
      rw [h1, h2]
      exact induction_base (i+1)

/-- P04: cutting a layer in two of the same material.  `In`, `Out` are the equations with the
neighbours (arguments: what the layer presents at its entrance / exit face), `t` the propagation. -/
theorem cut {W : Type u} (t1 t2 t : W → W) (ht : ∀ x, t x = t2 (t1 x)) (hc : ∀ x, t1 (t2 x) = t2 (t1 x))
    (In Out : W → W → Prop) :
    -- one layer: In a (t b), Out (t a) b;   two layers: amplitudes (a1,b1), (a2,b2)
    (∃ a b, In a (t b) ∧ Out (t a) b) ↔
    (∃ a1 b1 a2 b2, In a1 (t1 b1) ∧ (t1 a1 = a2 ∧ b1 = t2 b2) ∧ Out (t2 a2) b2) := by
  constructor
  · rintro ⟨a, b, h1, h2⟩
    refine ⟨a, t2 b, t1 a, b, ?_, ⟨rfl, rfl⟩, ?_⟩
    · rw [hc, ← ht]; exact h1
    · rw [← ht]; exact h2
  · rintro ⟨a1, b1, a2, b2, h1, ⟨h2, h3⟩, h4⟩
    refine ⟨a1, b2, ?_, ?_⟩
    · rw [ht, ← hc, ← h3]; exact h1
    · rw [ht, h2]; exact h4
