/- Facts about modes: functions of the eigenvalues, profiles constant along one direction. -/
import Mathlib.LinearAlgebra.Matrix.NonsingularInverse
import Mathlib.Data.Complex.Basic
import Mathlib.Tactic.LinearCombination

open Matrix

/-- two sets of eigenvectors of the same operator: a matrix relating the eigenvalues relates every function of them -/
theorem function_of_eigenvalues {n m : Type} [Fintype n] [Fintype m] [DecidableEq n] [DecidableEq m]
    (w : n → ℂ) (v : m → ℂ) (D : Matrix n m ℂ) (h : diagonal w * D = D * diagonal v) (f : ℂ → ℂ) :
    diagonal (fun i => f (w i)) * D = D * diagonal (fun j => f (v j)) := by
  ext i j
  have hij := congrFun (congrFun h i) j
  rw [diagonal_mul, mul_diagonal] at hij ⊢
  by_cases hD : D i j = 0
  · simp [hD]
  · have : w i = v j := by
      have h2 : (w i - v j) * D i j = 0 := by linear_combination hij
      rcases mul_eq_zero.1 h2 with h3 | h3
      · exact sub_eq_zero.1 h3
      · exact absurd h3 hD
    rw [this]
    ring
