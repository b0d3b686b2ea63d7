/-
Power along a stack.  `e i`, `x i`: power through the entrance and the exit face of layer i.
-/
/-- over any type of values (in particular the real numbers) -/
theorem flux_constant {R : Type u} (N : Nat) (e x : Nat → R) (inside : ∀ i, i ≤ N → x i = e i)
    (across : ∀ i, i < N → e (i+1) = x i) : e N = x 0 := by
  have h : ∀ i, i ≤ N → e i = e 0 := by
    intro i
    induction i with
    | zero => intro _; rfl
    | succ k ih =>
      intro hk
      have h1 : k < N := hk
      have h2 : k ≤ N := Nat.le_of_lt h1
      rw [across k h1, inside k h2, ih h2]
  rw [h N (Nat.le_refl N), inside 0 (Nat.zero_le N)]
