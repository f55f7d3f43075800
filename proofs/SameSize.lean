import Mathlib.Data.Finset.Card
import Mathlib.Data.Fintype.Card

/-- Two duplicate-free sequences (of lengths m and n) with the same members have the same length. -/
theorem same_size {α : Type*} (m n : ℕ) (f : Fin m → α) (g : Fin n → α)
    (hf : Function.Injective f) (hg : Function.Injective g)
    (h : ∀ x, (∃ i, f i = x) ↔ (∃ j, g j = x)) : m = n := by
  have hr : Set.range f = Set.range g := by
    ext x; simpa [Set.mem_range] using h x
  have e : Fin m ≃ Fin n :=
    (Equiv.ofInjective f hf).trans ((Equiv.setCongr hr).trans (Equiv.ofInjective g hg).symm)
  simpa using Fintype.card_congr e
