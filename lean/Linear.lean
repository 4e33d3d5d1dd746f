/-
The lemmas about finite sums, recursion and induction that the proof of SolveLinear (vf/tasks_linear.py) uses, checked by Lean.
SUM n f = sum of f k for 0 <= k < n (0 for n <= 0).
-/
import Mathlib.Algebra.BigOperators.Intervals
import Mathlib.Algebra.BigOperators.Ring.Finset
import Mathlib.Data.Real.Basic
import Mathlib.Tactic.Ring
import Mathlib.Tactic.Linarith

open Finset BigOperators
namespace VF

def SUM (n : ℤ) (f : ℤ → ℝ) : ℝ := ∑ k ∈ range n.toNat, f k

/-- a row that is a combination of rows: its product with X is the combination of their products -/
theorem sum_comb {ι : Type} (s : Finset ι) (n : ℤ) (c : ι → ℝ) (A : ι → ℤ → ℝ) (G X : ℤ → ℝ)
    (h : ∀ k, 0 ≤ k → k < n → G k = ∑ i ∈ s, c i * A i k) :
    SUM n (fun k => G k * X k) = ∑ i ∈ s, c i * SUM n (fun k => A i k * X k) := by
  have e : SUM n (fun k => G k * X k) = SUM n (fun k => ∑ i ∈ s, c i * (A i k * X k)) := by
    refine Finset.sum_congr rfl fun k hk => ?_
    have := Finset.mem_range.mp hk
    simp only [h k (by omega) (by omega), Finset.sum_mul]
    exact Finset.sum_congr rfl fun i _ => by ring
  rw [e]; simp only [SUM, Finset.mul_sum]; exact Finset.sum_comm

/-- terms left of k0 are zero: the term at k0, and the terms right of it -/
theorem sum_pivot (n k0 : ℤ) (f : ℤ → ℝ) (h0 : 0 ≤ k0) (h1 : k0 < n) (h : ∀ k, 0 ≤ k → k < k0 → f k = 0) :
    SUM n f = f k0 + SUM (n - k0 - 1) (fun k => f (k0 + 1 + k)) := by
  have e : n.toNat = (k0.toNat + 1) + (n - k0 - 1).toNat := by omega
  have e2 : ((k0.toNat : ℕ) : ℤ) = k0 := by omega
  simp only [SUM, e, Finset.sum_range_add, Finset.sum_range_succ]
  have hz : ∑ k ∈ range k0.toNat, f (k : ℤ) = 0 := Finset.sum_eq_zero fun k hk => h k (by omega) (by have := Finset.mem_range.mp hk; omega)
  rw [hz]
  simp only [e2, zero_add, Nat.cast_add, Nat.cast_one]

theorem sum_zero (n : ℤ) (f : ℤ → ℝ) (h : ∀ k, 0 ≤ k → k < n → f k = 0) : SUM n f = 0 :=
  Finset.sum_eq_zero fun k hk => h k (by omega) (by have := Finset.mem_range.mp hk; omega)

/-- equality of two vectors, from the last entry to the first -/
theorem down_induction (n : ℤ) (P : ℤ → Prop) (h : ∀ q, 0 ≤ q → q < n → (∀ k, q < k → k < n → P k) → P q) : ∀ q, 0 ≤ q → q < n → P q := by
  have key : ∀ m : ℕ, ∀ q, 0 ≤ q → q < n → n - q ≤ m → P q := by
    intro m
    induction m with
    | zero => intro q _ h2 h3; push_cast at h3; omega
    | succ m ih => intro q h1 h2 h3; exact h q h1 h2 fun k hk hkn => ih k (by omega) hkn (by push_cast at h3; omega)
  exact fun q h1 h2 => key (n - q).toNat q h1 h2 (by omega)

/-- a vector defined from its last entry to its first -/
theorem down_recursion (n : ℤ) (F : ℤ → (ℤ → ℝ) → ℝ) : ∃ V : ℤ → ℝ, ∀ q, 0 ≤ q → q < n → V q = F q (fun k => if q < k then V k else 0) := by
  have key : ∀ m : ℕ, ∃ V : ℤ → ℝ, ∀ q, n - m ≤ q → q < n → V q = F q (fun k => if q < k then V k else 0) := by
    intro m
    induction m with
    | zero => exact ⟨fun _ => 0, fun q h1 h2 => absurd h1 (by push_cast; omega)⟩
    | succ m ih =>
      obtain ⟨V, hV⟩ := ih
      refine ⟨fun k => if k = n - (m + 1) then F k (fun j => if k < j then V j else 0) else V k, fun q h1 h2 => ?_⟩
      have c : (fun k : ℤ => if q < k then (if k = n - (m + 1) then F k (fun j => if k < j then V j else 0) else V k) else 0) = (fun k => if q < k then V k else 0) := by
        funext k; by_cases hk : q < k
        · have : k ≠ n - (m + 1) := by push_cast at h1; omega
          simp [hk, this]
        · simp [hk]
      by_cases hq : q = n - (m + 1)
      · simp only [c]; simp only [hq, if_true]
      · simp only [c]; simp only [hq, if_false]; exact hV q (by push_cast at h1; omega) h2
  obtain ⟨V, hV⟩ := key n.toNat
  exact ⟨V, fun q h1 h2 => hV q (by omega) h2⟩

/-- the first position below n with a property, or n -/
theorem least (n : ℤ) (P : ℤ → Prop) (hn : 0 ≤ n) : ∃ f, 0 ≤ f ∧ f ≤ n ∧ (f < n → P f) ∧ ∀ k, 0 ≤ k → k < f → ¬ P k := by
  have key : ∀ m : ℕ, ∃ f : ℤ, 0 ≤ f ∧ f ≤ m ∧ (f < m → P f) ∧ ∀ k, 0 ≤ k → k < f → ¬ P k := by
    intro m
    induction m with
    | zero => exact ⟨0, by omega, by simp, fun h => absurd h (by simp), fun k h1 h2 => absurd h1 (by omega)⟩
    | succ m ih =>
      obtain ⟨f, h1, h2, h3, h4⟩ := ih
      by_cases hf : f < m
      · exact ⟨f, h1, by push_cast; omega, fun _ => h3 hf, h4⟩
      · by_cases hp : P m
        · exact ⟨m, by omega, by push_cast; omega, fun _ => hp, fun k k1 k2 => h4 k k1 (by omega)⟩
        · refine ⟨m + 1, by omega, by push_cast; omega, fun h => absurd h (by push_cast; omega), fun k k1 k2 => ?_⟩
          by_cases hk : k = m
          · rw [hk]; exact hp
          · exact h4 k k1 (by omega)
  obtain ⟨f, h1, h2, h3, h4⟩ := key n.toNat
  exact ⟨f, h1, by omega, fun h => h3 (by omega), h4⟩

end VF
#print axioms VF.sum_comb
#print axioms VF.sum_pivot
#print axioms VF.sum_zero
#print axioms VF.down_induction
#print axioms VF.down_recursion
#print axioms VF.least
