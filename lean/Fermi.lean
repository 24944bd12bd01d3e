import Mathlib.Analysis.SpecialFunctions.Exp
import Mathlib.Algebra.Order.BigOperators.Group.Finset
import Mathlib.Tactic

open Finset Real

/-- The mean occupation of finitely many levels inside the band `[-W, W]` lies between the occupations of the
band edges. -/
theorem mean_occupation_bounds {ι : Type*} (s : Finset ι) (hs : s.Nonempty) (e : ι → ℝ) (b mu W : ℝ) (hb : 0 < b)
    (he : ∀ k ∈ s, -W ≤ e k ∧ e k ≤ W) :
    1 / (exp (b * (W - mu)) + 1) ≤ (∑ k ∈ s, 1 / (exp (b * (e k - mu)) + 1)) / (s.card : ℝ) ∧
      (∑ k ∈ s, 1 / (exp (b * (e k - mu)) + 1)) / (s.card : ℝ) ≤ 1 / (exp (b * (-W - mu)) + 1) := by
  have hc : (0 : ℝ) < (s.card : ℝ) := by exact_mod_cast hs.card_pos
  have mono : ∀ x y : ℝ, x ≤ y → 1 / (exp (b * (y - mu)) + 1) ≤ 1 / (exp (b * (x - mu)) + 1) := by
    intro x y h
    apply one_div_le_one_div_of_le (by positivity)
    have : exp (b * (x - mu)) ≤ exp (b * (y - mu)) := exp_le_exp.mpr (by nlinarith)
    linarith
  constructor
  · rw [le_div_iff₀ hc]
    have := Finset.card_nsmul_le_sum s (fun k => 1 / (exp (b * (e k - mu)) + 1)) (1 / (exp (b * (W - mu)) + 1))
      (fun k hk => mono _ _ (he k hk).2)
    rw [nsmul_eq_mul] at this
    linarith
  · rw [div_le_iff₀ hc]
    have := Finset.sum_le_card_nsmul s (fun k => 1 / (exp (b * (e k - mu)) + 1)) (1 / (exp (b * (-W - mu)) + 1))
      (fun k hk => mono _ _ (he k hk).1)
    rw [nsmul_eq_mul] at this
    linarith

/-- The tight-binding energies lie inside the band. -/
theorem band (kx ky : ℝ) : (-4 ≤ -2 * (cos kx + cos ky) ∧ -2 * (cos kx + cos ky) ≤ 4) ∧
    (-2 ≤ -2 * cos kx ∧ -2 * cos kx ≤ 2) := by
  have h1 := cos_le_one kx
  have h2 := neg_one_le_cos kx
  have h3 := cos_le_one ky
  have h4 := neg_one_le_cos ky
  refine ⟨⟨?_, ?_⟩, ?_, ?_⟩ <;> linarith
