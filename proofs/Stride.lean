import Mathlib.Tactic.Linarith
import Mathlib.Tactic.Ring
import Mathlib.Tactic.Positivity

/-- The numbers from `v` to `hi` fall into consecutive intervals of length `s`, `n` of them, the k-th starting at `v + k * s`: used by `rt.Strided`. -/
theorem stride (v hi s : ℤ) (hs : 1 ≤ s) : ∃ n : ℤ, 0 ≤ n ∧ (n = 0 ↔ v ≥ hi) ∧
    (∀ k, 0 ≤ k → k < n → v ≤ v + k * s ∧ v + k * s < hi) ∧
    (∀ a b, 0 ≤ a → a < b → b < n → v + a * s + s ≤ v + b * s) ∧
    (∀ r, v ≤ r → r < hi → ∃ k, 0 ≤ k ∧ k < n ∧ v + k * s ≤ r ∧ r < v + k * s + s) := by
  have mono : ∀ a b : ℤ, a < b → v + a * s + s ≤ v + b * s := by
    intro a b hab
    nlinarith
  by_cases h : v ≥ hi
  · refine ⟨0, le_refl _, by simp [h], ?_, ?_, ?_⟩
    · intro k hk hk'; omega
    · intro a b _ hab _; exact mono a b hab
    · intro r h1 h2; omega
  · have hd : 0 ≤ (hi - 1 - v) / s := Int.ediv_nonneg (by omega) (by omega)
    have key : ∀ r, (r - v) / s * s ≤ r - v ∧ r - v < (r - v) / s * s + s := by
      intro r
      have e := Int.emod_add_mul_ediv (r - v) s
      have l := Int.emod_nonneg (r - v) (show s ≠ 0 by omega)
      have u := Int.emod_lt_of_pos (r - v) (show 0 < s by omega)
      constructor <;> nlinarith
    refine ⟨(hi - 1 - v) / s + 1, by omega, ?_, ?_, ?_, ?_⟩
    · constructor <;> intro <;> omega
    · intro k hk hk'
      have k1 := key (hi - 1)
      have : hi - 1 - v = (hi - 1) - v := rfl
      constructor
      · nlinarith
      · have : k * s ≤ (hi - 1 - v) / s * s := by nlinarith
        linarith [k1.1]
    · intro a b _ hab _; exact mono a b hab
    · intro r h1 h2
      refine ⟨(r - v) / s, Int.ediv_nonneg (by omega) (by omega), ?_, ?_, ?_⟩
      · have : (r - v) / s ≤ (hi - 1 - v) / s := Int.ediv_le_ediv (by omega) (by omega)
        omega
      · linarith [(key r).1]
      · linarith [(key r).2]
