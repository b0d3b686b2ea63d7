/- Facts about the discrete Fourier transform used with the contracts of fourier_transform,
   inverse_fourier_transform and _get_toeplitz_matrix (coefficient = transform / number of points). -/
import Mathlib.Analysis.SpecialFunctions.Complex.Log
import Mathlib.Algebra.Field.GeomSum
import Mathlib.Algebra.BigOperators.Field

open Complex Finset

noncomputable section

/-- exp(2 pi i k p / n) -/
def e (n : ℕ) (k : ℤ) (p : ℕ) : ℂ := exp (2 * Real.pi * I * k * p / n)

/-- Fourier coefficient (k, l) of an n x m array -/
def coef {n m : ℕ} (u : Fin n → Fin m → ℂ) (k l : ℤ) : ℂ :=
  (∑ p : Fin n, ∑ q : Fin m, u p q * (e n (-k) p * e m (-l) q)) / (n * m)

theorem e_add (n : ℕ) (k l : ℤ) (p : ℕ) : e n (k + l) p = e n k p * e n l p := by
  unfold e
  rw [← exp_add]
  congr 1
  push_cast
  ring

theorem e_pow (n : ℕ) (k : ℤ) (p : ℕ) : e n k p = (e n k 1) ^ p := by
  unfold e
  rw [← exp_nat_mul]
  congr 1
  push_cast
  ring

theorem e_one_iff (n : ℕ) (hn : 0 < n) (k : ℤ) : e n k 1 = 1 ↔ (n : ℤ) ∣ k := by
  unfold e
  rw [exp_eq_one_iff]
  have hn' : (n : ℂ) ≠ 0 := by exact_mod_cast hn.ne'
  have hpi : (2 * (Real.pi : ℂ) * I) ≠ 0 := two_pi_I_ne_zero
  constructor
  · rintro ⟨j, hj⟩
    refine ⟨j, ?_⟩
    have h : (2 * (Real.pi : ℂ) * I) * (k : ℂ) = (2 * (Real.pi : ℂ) * I) * ((n : ℂ) * j) := by
      rw [div_eq_iff hn'] at hj
      push_cast at hj
      linear_combination hj
    have := mul_left_cancel₀ hpi h
    exact_mod_cast this
  · rintro ⟨j, rfl⟩
    refine ⟨j, ?_⟩
    push_cast
    field_simp

theorem e_n (n : ℕ) (hn : 0 < n) (k : ℤ) : (e n k 1) ^ n = 1 := by
  rw [← e_pow]
  unfold e
  rw [exp_eq_one_iff]
  refine ⟨k, ?_⟩
  have hn' : (n : ℂ) ≠ 0 := by exact_mod_cast hn.ne'
  field_simp

theorem e_sum (n : ℕ) (hn : 0 < n) (k : ℤ) :
    ∑ p : Fin n, e n k p = if (n : ℤ) ∣ k then (n : ℂ) else 0 := by
  rw [Fin.sum_univ_eq_sum_range (fun p => e n k p) n]
  split_ifs with h
  · have h1 := (e_one_iff n hn k).2 h
    have : ∀ p ∈ range n, e n k p = 1 := by
      intro p _
      rw [e_pow, h1, one_pow]
    rw [sum_congr rfl this]
    simp
  · have h1 : e n k 1 ≠ 1 := fun H => h ((e_one_iff n hn k).1 H)
    have : ∀ p ∈ range n, e n k p = (e n k 1) ^ p := fun p _ => e_pow n k p
    rw [sum_congr rfl this, geom_sum_eq h1, e_n n hn, sub_self, zero_div]

/-- indices are taken modulo the number of points -/
theorem e_periodic (n : ℕ) (hn : 0 < n) (k j : ℤ) (p : ℕ) : e n (k + n * j) p = e n k p := by
  rw [e_add, e_pow n (n * j), (e_one_iff n hn _).2 (Dvd.intro j rfl), one_pow, mul_one]

theorem dft_linear {n m : ℕ} (a b : ℂ) (u v : Fin n → Fin m → ℂ) (k l : ℤ) :
    coef (fun p q => a * u p q + b * v p q) k l = a * coef u k l + b * coef v k l := by
  unfold coef
  rw [mul_div_assoc', mul_div_assoc', ← add_div]
  congr 1
  simp only [mul_sum, ← sum_add_distrib]
  refine sum_congr rfl fun p _ => sum_congr rfl fun q _ => ?_
  ring

/-- a sampled harmonic has one coefficient, whatever the number of points above Nyquist -/
theorem dft_character {n m : ℕ} (hn : 0 < n) (hm : 0 < m) (j i k l : ℤ)
    (h1 : |j - k| < n) (h2 : |i - l| < m) :
    coef (n := n) (m := m) (fun p q => e n j p * e m i q) k l = if k = j ∧ l = i then 1 else 0 := by
  unfold coef
  have hs : ∑ p : Fin n, ∑ q : Fin m, (e n j p * e m i q) * (e n (-k) p * e m (-l) q)
      = (∑ p : Fin n, e n (j - k) p) * (∑ q : Fin m, e m (i - l) q) := by
    rw [sum_mul_sum]
    refine sum_congr rfl fun p _ => sum_congr rfl fun q _ => ?_
    rw [sub_eq_add_neg, sub_eq_add_neg, e_add, e_add]
    ring
  rw [hs, e_sum n hn, e_sum m hm]
  have d1 : ((n : ℤ) ∣ j - k) ↔ k = j := by
    constructor
    · intro h
      have := Int.eq_zero_of_abs_lt_dvd h h1
      omega
    · rintro rfl
      simp
  have d2 : ((m : ℤ) ∣ i - l) ↔ l = i := by
    constructor
    · intro h
      have := Int.eq_zero_of_abs_lt_dvd h h2
      omega
    · rintro rfl
      simp
  have hn' : (n : ℂ) ≠ 0 := by exact_mod_cast hn.ne'
  have hm' : (m : ℂ) ≠ 0 := by exact_mod_cast hm.ne'
  simp only [d1, d2]
  by_cases a : k = j <;> by_cases b : l = i <;> simp [a, b, hn', hm']

theorem dft_const {n m : ℕ} (hn : 0 < n) (hm : 0 < m) (c : ℂ) (k l : ℤ) (h1 : |k| < n) (h2 : |l| < m) :
    coef (n := n) (m := m) (fun _ _ => c) k l = if k = 0 ∧ l = 0 then c else 0 := by
  have h := dft_linear (n := n) (m := m) c 0 (fun p q => e n 0 p * e m 0 q) (fun _ _ => 0) k l
  have h0 : ∀ (n p : ℕ), e n 0 p = 1 := by intro n p; simp [e]
  rw [dft_character hn hm 0 0 k l (by simpa using h1) (by simpa using h2)] at h
  simp only [h0, mul_one, mul_zero, add_zero, zero_mul] at h
  rw [h]
  split_ifs <;> simp

/-- a profile that does not depend on the second coordinate: the coefficients with l = 0 are those of the
    one-dimensional profile, the others vanish -/
theorem dft_stripe {n m : ℕ} (hm : 0 < m) (u : Fin n → ℂ) (k l : ℤ) (h2 : |l| < m) :
    coef (n := n) (m := m) (fun p _ => u p) k l
      = if l = 0 then coef (n := n) (m := 1) (fun p _ => u p) k 0 else 0 := by
  have hm' : (m : ℂ) ≠ 0 := by exact_mod_cast hm.ne'
  have h1 : ∀ m : ℕ, ∑ p : Fin n, ∑ q : Fin m, u p * (e n (-k) p * e m (-l) q)
      = (∑ p : Fin n, u p * e n (-k) p) * (∑ q : Fin m, e m (-l) q) := by
    intro m
    rw [sum_mul_sum]
    refine sum_congr rfl fun p _ => sum_congr rfl fun q _ => ?_
    ring
  have e0 : ∀ (n p : ℕ), e n 0 p = 1 := by intro n p; simp [e]
  unfold coef
  rw [h1 m, e_sum m hm]
  have d : ((m : ℤ) ∣ -l) ↔ l = 0 := by
    constructor
    · intro h
      have := Int.eq_zero_of_abs_lt_dvd h (by simpa using h2)
      omega
    · rintro rfl
      simp
  simp only [d]
  split_ifs with hl
  · simp only [neg_zero, e0, mul_one, Finset.univ_unique, Finset.sum_singleton, Nat.cast_one]
    field_simp
  · simp

theorem e_conj (n : ℕ) (k : ℤ) (p : ℕ) : (starRingEnd ℂ) (e n k p) = e n (-k) p := by
  unfold e
  rw [← exp_conj]
  congr 1
  rw [map_div₀, map_mul, map_mul, map_mul, map_mul, Complex.conj_I, Complex.conj_ofReal, map_intCast, map_natCast, map_natCast, Complex.conj_ofNat]
  push_cast
  ring

/-- coefficients of the conjugate; of real arrays in particular: convolution matrices are Hermitian -/
theorem dft_real {n m : ℕ} (u : Fin n → Fin m → ℂ) (k l : ℤ) :
    coef (fun p q => (starRingEnd ℂ) (u p q)) (-k) (-l) = (starRingEnd ℂ) (coef u k l) := by
  unfold coef
  rw [map_div₀, map_sum]
  congr 1
  · refine sum_congr rfl fun p _ => ?_
    rw [map_sum]
    refine sum_congr rfl fun q _ => ?_
    simp [e_conj]
  · simp

/-- the synthesis of the coefficients is the array -/
theorem dft_inverse {n m : ℕ} (hn : 0 < n) (hm : 0 < m) (u : Fin n → Fin m → ℂ) (p : Fin n) (q : Fin m) :
    ∑ k : Fin n, ∑ l : Fin m, coef u k l * (e n k p * e m l q) = u p q := by
  have hn' : (n : ℂ) ≠ 0 := by exact_mod_cast hn.ne'
  have hm' : (m : ℂ) ≠ 0 := by exact_mod_cast hm.ne'
  have swap : ∀ (n : ℕ) (k p : ℕ), e n (k : ℤ) p = e n (p : ℤ) k := by
    intro n k p; unfold e; congr 1; push_cast; ring
  have swapn : ∀ (n : ℕ) (k p : ℕ), e n (-(k : ℤ)) p = e n (-(p : ℤ)) k := by
    intro n k p; unfold e; congr 1; push_cast; ring
  have key : ∀ (a : Fin n) (b : Fin m),
      ∑ k : Fin n, ∑ l : Fin m, (e n (-(k : ℤ)) a * e m (-(l : ℤ)) b) * (e n (k : ℤ) p * e m (l : ℤ) q)
        = if a = p ∧ b = q then (n : ℂ) * m else 0 := by
    intro a b
    have hs : ∑ k : Fin n, ∑ l : Fin m, (e n (-(k : ℤ)) a * e m (-(l : ℤ)) b) * (e n (k : ℤ) p * e m (l : ℤ) q)
        = (∑ k : Fin n, e n ((p : ℤ) - (a : ℤ)) k) * (∑ l : Fin m, e m ((q : ℤ) - (b : ℤ)) l) := by
      rw [sum_mul_sum]
      refine sum_congr rfl fun k _ => sum_congr rfl fun l _ => ?_
      rw [sub_eq_add_neg, sub_eq_add_neg, e_add, e_add, swap n k p, swap m l q, swapn n k a, swapn m l b]
      ring
    rw [hs, e_sum n hn, e_sum m hm]
    have d : ∀ (N : ℕ) (x y : Fin N), ((N : ℤ) ∣ (x : ℤ) - (y : ℤ)) ↔ y = x := by
      intro N x y
      constructor
      · intro h
        have hx := x.isLt
        have hy := y.isLt
        have := Int.eq_zero_of_abs_lt_dvd h (by rw [abs_lt]; constructor <;> omega)
        apply Fin.ext
        omega
      · rintro rfl
        simp
    simp only [d]
    by_cases ha : a = p <;> by_cases hb : b = q <;> simp [ha, hb]
  unfold coef
  have : ∀ (k : Fin n) (l : Fin m),
      (∑ a : Fin n, ∑ b : Fin m, u a b * (e n (-(k : ℤ)) a * e m (-(l : ℤ)) b)) / (n * m) * (e n (k : ℤ) p * e m (l : ℤ) q)
      = (∑ a : Fin n, ∑ b : Fin m, u a b * ((e n (-(k : ℤ)) a * e m (-(l : ℤ)) b) * (e n (k : ℤ) p * e m (l : ℤ) q))) / (n * m) := by
    intro k l
    rw [div_mul_eq_mul_div, sum_mul]
    congr 1
    refine sum_congr rfl fun a _ => ?_
    rw [sum_mul]
    refine sum_congr rfl fun b _ => ?_
    ring
  simp only [this]
  simp only [← Finset.sum_div]
  rw [div_eq_iff (mul_ne_zero hn' hm')]
  have e1 : ∑ k : Fin n, ∑ l : Fin m, ∑ a : Fin n, ∑ b : Fin m,
        u a b * ((e n (-(k : ℤ)) a * e m (-(l : ℤ)) b) * (e n (k : ℤ) p * e m (l : ℤ) q))
      = ∑ a : Fin n, ∑ b : Fin m, u a b * (if a = p ∧ b = q then (n : ℂ) * m else 0) := by
    simp only [← key, mul_sum]
    have c1 : ∀ k : Fin n, ∑ l : Fin m, ∑ a : Fin n, ∑ b : Fin m,
          u a b * ((e n (-(k : ℤ)) a * e m (-(l : ℤ)) b) * (e n (k : ℤ) p * e m (l : ℤ) q))
        = ∑ a : Fin n, ∑ b : Fin m, ∑ l : Fin m,
          u a b * ((e n (-(k : ℤ)) a * e m (-(l : ℤ)) b) * (e n (k : ℤ) p * e m (l : ℤ) q)) := by
      intro k
      rw [sum_comm]
      refine sum_congr rfl fun a _ => ?_
      rw [sum_comm]
    simp only [c1]
    rw [sum_comm]
    refine sum_congr rfl fun a _ => ?_
    rw [sum_comm]
  rw [e1]
  rw [sum_eq_single p, sum_eq_single q]
  · simp
  · intro b _ hb
    simp [hb]
  · simp
  · intro a _ ha
    simp [ha]
  · simp

end
