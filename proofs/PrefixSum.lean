import Mathlib.Algebra.Order.Ring.Int

/-- Running totals of non-negative amounts never decrease: used by `rt.Acc`. -/
theorem prefix_mono (n : ℕ) (S d : ℕ → ℤ) (hs : ∀ k < n, S (k + 1) = S k + d k) (hd : ∀ k < n, 0 ≤ d k) :
    ∀ k ≤ n, S 0 ≤ S k ∧ S k ≤ S n := by
  have up : ∀ i j, i ≤ j → j ≤ n → S i ≤ S j := by
    intro i j hij hjn
    induction j with
    | zero => simp_all
    | succ m ih =>
      rcases Nat.lt_or_ge i (m + 1) with h | h
      · have h1 := ih (Nat.lt_succ_iff.mp h) (Nat.le_of_succ_le hjn)
        have h2 := hs m hjn
        have h3 := hd m hjn
        omega
      · have : i = m + 1 := Nat.le_antisymm hij h
        subst this; exact le_refl _
  intro k hk
  exact ⟨up 0 k (Nat.zero_le k) hk, up k n hk (le_refl n)⟩
