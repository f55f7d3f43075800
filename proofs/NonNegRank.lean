import Mathlib.LinearAlgebra.Matrix.Rank
import Mathlib.Algebra.Order.Archimedean.Real.Basic

/-- Used by P31: a product of matrices with non-negative entries has non-negative entries, and its rank is at most the
inner dimension. -/
theorem nonneg_prod_entries {m n k : ℕ} (W : Matrix (Fin m) (Fin k) ℝ) (H : Matrix (Fin k) (Fin n) ℝ)
    (hW : ∀ i j, 0 ≤ W i j) (hH : ∀ i j, 0 ≤ H i j) : ∀ i j, 0 ≤ (W * H) i j := by
  intro i j
  rw [Matrix.mul_apply]
  exact Finset.sum_nonneg (fun x _ => mul_nonneg (hW i x) (hH x j))

theorem rank_prod_le_inner {m n k : ℕ} (W : Matrix (Fin m) (Fin k) ℝ) (H : Matrix (Fin k) (Fin n) ℝ) :
    (W * H).rank ≤ k := by
  have h := (Matrix.rank_mul_le_left W H).trans (Matrix.rank_le_card_width W)
  simpa using h
