import Mathlib

open MeasureTheory
open scoped Pointwise

/-- pigeonhole on a sorted enumeration: if at least `n` elements have a key at most `r`, so do the first `n` -/
theorem nth_le {α : Type} [DecidableEq α] (m n : ℕ) (σ : ℕ → α) (key : α → ℝ) (S : Finset α) (r : ℝ)
    (mono : ∀ i j, i ≤ j → j < m → key (σ i) ≤ key (σ j))
    (onto : ∀ p ∈ S, ∃ k < m, σ k = p) (hS : ∀ p ∈ S, key p ≤ r) (hn : n ≤ S.card) :
    ∀ k < n, k < m ∧ key (σ k) ≤ r := by
  intro k hk
  by_contra hcon
  have hsub : S ⊆ (Finset.range k).image σ := by
    intro p hp
    obtain ⟨j, hj, rfl⟩ := onto p hp
    rw [Finset.mem_image]
    refine ⟨j, ?_, rfl⟩
    rw [Finset.mem_range]
    by_contra hjk
    rw [not_lt] at hjk
    apply hcon
    exact ⟨lt_of_le_of_lt hjk hj, le_trans (mono k j hjk hj) (hS _ hp)⟩
  have h1 := Finset.card_le_card hsub
  have h2 : ((Finset.range k).image σ).card ≤ k := le_trans Finset.card_image_le (by simp)
  omega

/-- Gauss: a disc of radius r + |k1| + |k2| contains at least pi r^2 / (area of the cell) points of the lattice -/
theorem gauss (b : Module.Basis (Fin 2) ℝ ℂ) (S : Finset ℂ) (r : ℝ) (hr : 0 ≤ r)
    (hS : ∀ v ∈ Submodule.span ℤ (Set.range b), ‖v‖ ≤ r + (‖b 0‖ + ‖b 1‖) → v ∈ S) :
    Real.pi * r ^ 2 ≤ S.card * (volume (ZSpan.fundamentalDomain b)).toReal := by
  have hcov : Metric.ball (0 : ℂ) r ⊆ ⋃ v ∈ S, (v +ᵥ ZSpan.fundamentalDomain b) := by
    intro x hx
    rw [Metric.mem_ball, dist_zero_right] at hx
    have hx2 : x = (ZSpan.floor b x : ℂ) + ZSpan.fract b x := by
      rw [ZSpan.fract_apply]; ring
    have hfr : ‖ZSpan.fract b x‖ ≤ ‖b 0‖ + ‖b 1‖ := by
      have := ZSpan.norm_fract_le b x
      simpa [Fin.sum_univ_two] using this
    rw [Set.mem_iUnion₂]
    refine ⟨(ZSpan.floor b x : ℂ), hS _ (ZSpan.floor b x).2 ?_, ?_⟩
    · have : (ZSpan.floor b x : ℂ) = x - ZSpan.fract b x := by rw [ZSpan.fract_apply]; ring
      rw [this]
      exact le_trans (norm_sub_le _ _) (by linarith)
    · rw [Set.mem_vadd_set]
      exact ⟨ZSpan.fract b x, ZSpan.fract_mem_fundamentalDomain b x, by rw [vadd_eq_add]; exact hx2.symm⟩
  have hfin : volume (ZSpan.fundamentalDomain b) ≠ ⊤ := (ZSpan.fundamentalDomain_isBounded b).measure_lt_top.ne
  have h1 : volume (Metric.ball (0 : ℂ) r) ≤ ∑ v ∈ S, volume (v +ᵥ ZSpan.fundamentalDomain b) :=
    le_trans (measure_mono hcov) (measure_biUnion_finset_le S _)
  simp only [measure_vadd, Finset.sum_const, nsmul_eq_mul] at h1
  rw [Complex.volume_ball] at h1
  have h2 := ENNReal.toReal_mono (ENNReal.mul_ne_top (ENNReal.natCast_ne_top _) hfin) h1
  simp only [ENNReal.toReal_mul, ENNReal.toReal_pow, ENNReal.toReal_ofReal hr, ENNReal.toReal_natCast] at h2
  have : (NNReal.pi : ENNReal).toReal = Real.pi := by simp
  rw [this] at h2
  linarith

theorem cell (b : Module.Basis (Fin 2) ℝ ℂ) :
    (volume (ZSpan.fundamentalDomain b)).toReal = |(b 0).re * (b 1).im - (b 1).re * (b 0).im| := by
  have h1 : volume (ZSpan.fundamentalDomain Complex.orthonormalBasisOneI.toBasis) = 1 := by
    rw [measure_congr (ZSpan.fundamentalDomain_ae_parallelepiped Complex.orthonormalBasisOneI.toBasis volume)]
    simpa using Complex.orthonormalBasisOneI.volume_parallelepiped
  rw [ZSpan.measure_fundamentalDomain b volume Complex.orthonormalBasisOneI.toBasis, h1, mul_one, ENNReal.toReal_ofReal (abs_nonneg _)]
  congr 1
  rw [Module.Basis.det_apply, Matrix.det_fin_two]
  simp [Module.Basis.toMatrix_apply]

/-- reciprocal vector of a pair of indices -/
noncomputable def vec (k1 k2 : ℂ) (p : ℤ × ℤ) : ℂ := (p.1 : ℂ) * k1 + (p.2 : ℂ) * k2

theorem vec_neg (k1 k2 : ℂ) (p : ℤ × ℤ) : vec k1 k2 (-p) = -vec k1 k2 p := by
  simp [vec]; ring

/-- at least `n` pairs have a vector of length at most sqrt(n |cross| / pi) + |k1| + |k2| -/
theorem enough (k1 k2 : ℂ) (hc : k1.re * k2.im - k2.re * k1.im ≠ 0) (n : ℕ) (S : Finset (ℤ × ℤ))
    (hS : ∀ p, ‖vec k1 k2 p‖ ≤ Real.sqrt (n * |k1.re * k2.im - k2.re * k1.im| / Real.pi) + (‖k1‖ + ‖k2‖) → p ∈ S) :
    n ≤ S.card := by
  have hli : LinearIndependent ℝ ![k1, k2] := by
    rw [LinearIndependent.pair_iff]
    intro s t h
    have h1 := congrArg Complex.re h
    have h2 := congrArg Complex.im h
    simp at h1 h2
    have hs : s * (k1.re * k2.im - k2.re * k1.im) = 0 := by linear_combination k2.im * h1 - k2.re * h2
    have ht : t * (k1.re * k2.im - k2.re * k1.im) = 0 := by linear_combination k1.re * h2 - k1.im * h1
    exact ⟨(mul_eq_zero.mp hs).resolve_right hc, (mul_eq_zero.mp ht).resolve_right hc⟩
  let b : Module.Basis (Fin 2) ℝ ℂ := basisOfLinearIndependentOfCardEqFinrank hli (by simp [Complex.finrank_real_complex])
  have hb0 : b 0 = k1 := by simp [b]
  have hb1 : b 1 = k2 := by simp [b]
  set r := Real.sqrt (n * |k1.re * k2.im - k2.re * k1.im| / Real.pi) with hr
  have hg := gauss b (S.image (vec k1 k2)) r (Real.sqrt_nonneg _) (by
    intro v hv hn
    rw [Submodule.mem_span_range_iff_exists_fun] at hv
    obtain ⟨c, hc2⟩ := hv
    rw [Fin.sum_univ_two, hb0, hb1] at hc2
    rw [hb0, hb1] at hn
    have hv2 : vec k1 k2 (c 0, c 1) = v := by rw [← hc2]; simp [vec]
    rw [Finset.mem_image]
    exact ⟨(c 0, c 1), hS _ (by rw [hv2]; exact hn), hv2⟩)
  rw [cell, hb0, hb1] at hg
  have hpos : 0 < |k1.re * k2.im - k2.re * k1.im| := abs_pos.mpr hc
  have hsq : Real.pi * r ^ 2 = n * |k1.re * k2.im - k2.re * k1.im| := by
    rw [hr, Real.sq_sqrt (by positivity)]
    field_simp
  rw [hsq] at hg
  have h3 : (n : ℝ) ≤ (S.image (vec k1 k2)).card := le_of_mul_le_mul_right hg hpos
  have h4 : n ≤ (S.image (vec k1 k2)).card := by exact_mod_cast h3
  exact le_trans h4 Finset.card_image_le

/-- the harmonics kept by the circular truncation: the first `c` pairs of a box sorted by length, cut between two
different lengths, where the pairs outside of the box are longer than the bound of `enough` -/
theorem harmonics (k1 k2 : ℂ) (hc : k1.re * k2.im - k2.re * k1.im ≠ 0) (n m c : ℕ) (M0 M1 : ℤ) (σ : ℕ → ℤ × ℤ)
    (onto : ∀ p : ℤ × ℤ, |p.1| ≤ M0 → |p.2| ≤ M1 → ∃ k < m, σ k = p)
    (box : ∀ k < m, |(σ k).1| ≤ M0 ∧ |(σ k).2| ≤ M1)
    (inj : ∀ i < m, ∀ j < m, σ i = σ j → i = j)
    (mono : ∀ i j, i ≤ j → j < m → ‖vec k1 k2 (σ i)‖ ≤ ‖vec k1 k2 (σ j)‖)
    (out : ∀ p : ℤ × ℤ, (M0 < |p.1| ∨ M1 < |p.2|) →
      Real.sqrt (n * |k1.re * k2.im - k2.re * k1.im| / Real.pi) + (‖k1‖ + ‖k2‖) < ‖vec k1 k2 p‖)
    (hM : 0 ≤ M0 ∧ 0 ≤ M1) (c1 : 1 ≤ c) (cn : c ≤ n) (cm : c < m)
    (gap : ‖vec k1 k2 (σ (c - 1))‖ < ‖vec k1 k2 (σ c)‖) :
    (∀ i < c, ∀ j < c, σ i = σ j → i = j) ∧ (∃ i < c, σ i = (0, 0)) ∧ (∀ i < c, ∃ j < c, σ j = -σ i) ∧
    (∀ p, (∀ i < c, σ i ≠ p) → ∀ j < c, ‖vec k1 k2 (σ j)‖ < ‖vec k1 k2 p‖) := by
  have down : ∀ p : ℤ × ℤ, |p.1| ≤ M0 → |p.2| ≤ M1 → ‖vec k1 k2 p‖ ≤ ‖vec k1 k2 (σ (c - 1))‖ → ∃ i < c, σ i = p := by
    intro p h1 h2 h3
    obtain ⟨k, hk, rfl⟩ := onto p h1 h2
    refine ⟨k, ?_, rfl⟩
    by_contra hkc
    rw [not_lt] at hkc
    have := mono c k hkc hk
    linarith
  have top : ∀ j < c, ‖vec k1 k2 (σ j)‖ ≤ ‖vec k1 k2 (σ (c - 1))‖ := fun j hj => mono j (c - 1) (by omega) (by omega)
  refine ⟨fun i hi j hj => inj i (by omega) j (by omega), ?_, ?_, ?_⟩
  · apply down (0, 0) (by simpa using hM.1) (by simpa using hM.2)
    simp [vec]
  · intro i hi
    have hb := box i (by omega)
    apply down (-σ i) (by simpa using hb.1) (by simpa using hb.2)
    rw [vec_neg, norm_neg]
    exact top i hi
  · intro p hp j hj
    by_cases hin : |p.1| ≤ M0 ∧ |p.2| ≤ M1
    · have h1 : ¬ ‖vec k1 k2 p‖ ≤ ‖vec k1 k2 (σ (c - 1))‖ := by
        intro h
        obtain ⟨i, hi, he⟩ := down p hin.1 hin.2 h
        exact hp i hi he
      exact lt_of_le_of_lt (top j hj) (lt_of_not_ge h1)
    · have hout := out p (by
        rcases not_and_or.mp hin with h | h
        · exact Or.inl (lt_of_not_ge h)
        · exact Or.inr (lt_of_not_ge h))
      let R := Real.sqrt (n * |k1.re * k2.im - k2.re * k1.im| / Real.pi) + (‖k1‖ + ‖k2‖)
      let S : Finset (ℤ × ℤ) := ((Finset.Icc (-M0) M0) ×ˢ (Finset.Icc (-M1) M1)).filter (fun p => ‖vec k1 k2 p‖ ≤ R)
      have inS : ∀ q, ‖vec k1 k2 q‖ ≤ R → q ∈ S := by
        intro q hq
        rw [Finset.mem_filter, Finset.mem_product, Finset.mem_Icc, Finset.mem_Icc]
        have hqb : |q.1| ≤ M0 ∧ |q.2| ≤ M1 := by
          by_contra hcon
          have := out q (by
            rcases not_and_or.mp hcon with h | h
            · exact Or.inl (lt_of_not_ge h)
            · exact Or.inr (lt_of_not_ge h))
          exact absurd hq (not_le_of_gt this)
        exact ⟨⟨abs_le.mp hqb.1, abs_le.mp hqb.2⟩, hq⟩
      have hn := enough k1 k2 hc n S inS
      have hle := nth_le m n σ (fun q => ‖vec k1 k2 q‖) S R (fun i j => mono i j)
        (by
          intro q hq
          rw [Finset.mem_filter, Finset.mem_product, Finset.mem_Icc, Finset.mem_Icc] at hq
          exact onto q (abs_le.mpr hq.1.1) (abs_le.mpr hq.1.2))
        (by
          intro q hq
          exact (Finset.mem_filter.mp hq).2) hn (c - 1) (by omega)
      exact lt_of_le_of_lt (le_trans (top j hj) hle.2) hout

theorem cross_le (v w : ℂ) : |v.re * w.im - w.re * v.im| ≤ ‖v‖ * ‖w‖ := by
  have h : v.re * w.im - w.re * v.im = (starRingEnd ℂ v * w).im := by simp; ring
  rw [h]
  calc |(starRingEnd ℂ v * w).im| ≤ ‖starRingEnd ℂ v * w‖ := Complex.abs_im_le_norm _
    _ = ‖v‖ * ‖w‖ := by rw [norm_mul, Complex.norm_conj]

/-- sufficient extents of the window: the pairs outside of it are longer than R -/
theorem outside (k1 k2 : ℂ) (hc : k1.re * k2.im - k2.re * k1.im ≠ 0) (R : ℝ) (M0 M1 : ℤ)
    (h0 : R * ‖k2‖ < (M0 + 1) * |k1.re * k2.im - k2.re * k1.im|)
    (h1 : R * ‖k1‖ < (M1 + 1) * |k1.re * k2.im - k2.re * k1.im|)
    (p : ℤ × ℤ) (hp : M0 < |p.1| ∨ M1 < |p.2|) : R < ‖vec k1 k2 p‖ := by
  have hX : 0 < |k1.re * k2.im - k2.re * k1.im| := abs_pos.mpr hc
  have hk1 : 0 < ‖k1‖ := by
    rw [norm_pos_iff]; rintro rfl; simp at hc
  have hk2 : 0 < ‖k2‖ := by
    rw [norm_pos_iff]; rintro rfl; simp at hc
  rcases hp with hp | hp
  · have a := cross_le (vec k1 k2 p) k2
    have e : (vec k1 k2 p).re * k2.im - k2.re * (vec k1 k2 p).im = (p.1 : ℝ) * (k1.re * k2.im - k2.re * k1.im) := by
      simp [vec]; ring
    rw [e, abs_mul] at a
    have hb : (M0 : ℝ) + 1 ≤ |(p.1 : ℝ)| := by
      have : M0 + 1 ≤ |p.1| := hp
      exact_mod_cast this
    have := mul_le_mul_of_nonneg_right hb hX.le
    exact lt_of_mul_lt_mul_right (by linarith) hk2.le
  · have a := cross_le (vec k1 k2 p) k1
    have e : (vec k1 k2 p).re * k1.im - k1.re * (vec k1 k2 p).im = -((p.2 : ℝ) * (k1.re * k2.im - k2.re * k1.im)) := by
      simp [vec]; ring
    rw [e, abs_neg, abs_mul] at a
    have hb : (M1 : ℝ) + 1 ≤ |(p.2 : ℝ)| := by
      have : M1 + 1 ≤ |p.2| := hp
      exact_mod_cast this
    have := mul_le_mul_of_nonneg_right hb hX.le
    exact lt_of_mul_lt_mul_right (by linarith) hk1.le

/-- 2 t + 1 distinct integers between -t and t: all of them -/
theorem consecutive (t : ℕ) (S : Finset ℤ) (hS : ∀ x ∈ S, -(t : ℤ) ≤ x ∧ x ≤ t) (hc : S.card = 2 * t + 1) :
    S = Finset.Icc (-(t : ℤ)) t := by
  apply Finset.eq_of_subset_of_card_le
  · intro x hx
    exact Finset.mem_Icc.mpr (hS x hx)
  · rw [hc, Int.card_Icc]
    omega
