import Mathlib

/-! Sorted grids: lemmas over the contracts of the adaptive sampler. -/

/-- `u` is the list of the distinct elements of `a ++ b` in increasing order (contract of `unique(hstack([a, b]))`);
the elements of `u` that are not in `a` are those of `b`, in the order of `b`. -/
theorem unique_cat_minus (a b u : List ℝ) (hb : b.Pairwise (· < ·)) (hu : u.Pairwise (· < ·))
    (hm : ∀ v, v ∈ u ↔ v ∈ a ∨ v ∈ b) (hd : ∀ v ∈ b, v ∉ a) :
    u.filter (fun v => decide (v ∉ a)) = b := by
  have hf : (u.filter (fun v => decide (v ∉ a))).Pairwise (· < ·) := hu.filter _
  have n1 : (u.filter (fun v => decide (v ∉ a))).Nodup := hf.imp (fun h => ne_of_lt h)
  have n2 : b.Nodup := hb.imp (fun h => ne_of_lt h)
  have hp : List.Perm (u.filter (fun v => decide (v ∉ a))) b := by
    rw [List.perm_ext_iff_of_nodup n1 n2]
    intro v
    simp only [List.mem_filter, decide_eq_true_eq, hm]
    constructor
    · rintro ⟨h | h, h2⟩
      · exact absurd h h2
      · exact h
    · intro h
      exact ⟨Or.inr h, hd v h⟩
  exact hp.eq_of_pairwise (fun x y _ _ h1 h2 => absurd h2 (not_lt_of_gt h1)) hf hb

/-- values gathered at the positions `p` of the elements of `u` in `s` are the values at the elements of `u` -/
theorem values_follow {β : Type} (f : ℝ → β) (n m : ℕ) (s : Fin n → ℝ) (u : Fin m → ℝ) (p : Fin m → Fin n)
    (hp : ∀ j, s (p j) = u j) (y : Fin n → β) (hy : ∀ i, y i = f (s i)) :
    ∀ j, y (p j) = f (u j) := by
  intro j
  rw [hy, hp]

/-- a value strictly between two consecutive points of a strictly increasing grid is no point of the grid -/
theorem no_point_between (x : ℕ → ℝ) (n i : ℕ) (hx : ∀ j k, j < k → k < n → x j < x k) (hi : i + 1 < n)
    (v : ℝ) (h1 : x i < v) (h2 : v < x (i + 1)) : (∀ k, k < n → x k ≠ v) ∧ x 0 ≤ v ∧ v ≤ x (n - 1) := by
  have mono : ∀ j k, j ≤ k → k < n → x j ≤ x k := by
    intro j k h hk
    rcases Nat.lt_or_ge j k with h' | h'
    · exact le_of_lt (hx j k h' hk)
    · have : j = k := le_antisymm h h'
      rw [this]
  refine ⟨?_, ?_, ?_⟩
  · intro k hk he
    rcases Nat.lt_or_ge i k with h | h
    · have := mono (i + 1) k h hk
      linarith
    · have := mono k i h (by omega)
      linarith
  · have := mono 0 i (Nat.zero_le _) (by omega)
    linarith
  · have := mono (i + 1) (n - 1) (by omega) (by omega)
    linarith
