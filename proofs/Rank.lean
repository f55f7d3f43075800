import Mathlib.Order.Interval.Finset.Nat
import Mathlib.Data.Finset.Card
import Mathlib.Algebra.Order.Floor.Ring
import Mathlib.Algebra.Order.Archimedean.Real.Basic

/-- Rank lemma used by `pdmodel.Rank`: if the members of a finite set (the rows of a group) carry distinct ranks below
their number `N`, then exactly `max 0 (min N ⌈t⌉)` of them have a rank below the real number `t`. -/
theorem rank_lemma {α : Type*} [DecidableEq α] (s : Finset α) (rk : α → ℕ)
    (hlt : ∀ a ∈ s, rk a < s.card) (hinj : Set.InjOn rk s) (t : ℝ) :
    (s.filter (fun a => (rk a : ℝ) < t)).card = min s.card ⌈t⌉₊ := by
  classical
  have himg : s.image rk = Finset.range s.card := by
    apply Finset.eq_of_subset_of_card_le
    · intro x hx
      obtain ⟨a, ha, rfl⟩ := Finset.mem_image.mp hx
      exact Finset.mem_range.mpr (hlt a ha)
    · rw [Finset.card_range, Finset.card_image_of_injOn hinj]
  have h1 : (s.filter (fun a => (rk a : ℝ) < t)).image rk = Finset.range (min s.card ⌈t⌉₊) := by
    ext x
    constructor
    · intro hx
      obtain ⟨a, ha, rfl⟩ := Finset.mem_image.mp hx
      obtain ⟨ha1, ha2⟩ := Finset.mem_filter.mp ha
      exact Finset.mem_range.mpr (lt_min (hlt a ha1) (Nat.lt_ceil.mpr ha2))
    · intro hx
      have hx' := Finset.mem_range.mp hx
      have hx1 : x ∈ s.image rk := by
        rw [himg]; exact Finset.mem_range.mpr (lt_of_lt_of_le hx' (min_le_left _ _))
      obtain ⟨a, ha, rfl⟩ := Finset.mem_image.mp hx1
      exact Finset.mem_image.mpr ⟨a, Finset.mem_filter.mpr ⟨ha, Nat.lt_ceil.mp (lt_of_lt_of_le hx' (min_le_right _ _))⟩, rfl⟩
  have h2 : ((s.filter (fun a => (rk a : ℝ) < t)).image rk).card = (s.filter (fun a => (rk a : ℝ) < t)).card :=
    Finset.card_image_of_injOn (hinj.mono (by intro a ha; exact Finset.mem_coe.mpr (Finset.mem_filter.mp (Finset.mem_coe.mp ha)).1))
  rw [← h2, h1, Finset.card_range]
