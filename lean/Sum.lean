/-
The lemmas about finite sums and flat indices that vf/theory.py instantiates, checked by Lean.
SUM n f = sum of f k for 0 <= k < n (0 for n <= 0); QUO c k, REM c k, FLAT c q r relate the flat index k = q*c + r to row q and column r.
-/
import Mathlib.Algebra.BigOperators.Intervals
import Mathlib.Algebra.BigOperators.Ring.Finset
import Mathlib.Data.Real.Basic
import Mathlib.Tactic.Ring
import Mathlib.Tactic.Linarith

open Finset BigOperators
namespace VF

def SUM (n : ℤ) (f : ℤ → ℝ) : ℝ := ∑ k ∈ range n.toNat, f k
def SUM2 (R C : ℤ) (f : ℤ → ℤ → ℝ) : ℝ := ∑ q ∈ range R.toNat, ∑ r ∈ range C.toNat, f q r
def QUO (c k : ℤ) : ℤ := k / c
def REM (c k : ℤ) : ℤ := k % c
def FLAT (c q r : ℤ) : ℤ := q * c + r

theorem sum_empty (n : ℤ) (f) (h : n ≤ 0) : SUM n f = 0 := by simp [SUM, Int.toNat_of_nonpos h]
theorem sum2_empty (R C : ℤ) (f) (h : R ≤ 0 ∨ C ≤ 0) : SUM2 R C f = 0 := by
  rcases h with h | h <;> simp [SUM2, Int.toNat_of_nonpos h]
/-- extensionality: the solver picks the position k where the sums may differ -/
theorem sum_ext (n : ℤ) (f g) (h : ∀ k, 0 ≤ k → k < n → f k = g k) : SUM n f = SUM n g := by
  refine Finset.sum_congr rfl fun k hk => h k (by omega) ?_
  have := Finset.mem_range.mp hk; omega
theorem sum2_ext (R C : ℤ) (f g) (h : ∀ q r, 0 ≤ q → q < R → 0 ≤ r → r < C → f q r = g q r) : SUM2 R C f = SUM2 R C g := by
  refine Finset.sum_congr rfl fun q hq => Finset.sum_congr rfl fun r hr => h q r (by omega) ?_ (by omega) ?_
  · have := Finset.mem_range.mp hq; omega
  · have := Finset.mem_range.mp hr; omega
theorem sum_succ (m : ℤ) (f g) (hm : 0 ≤ m) (h : ∀ k, 0 ≤ k → k < m → f k = g k) : SUM (m + 1) f = SUM m g + f m := by
  rw [← sum_ext m f g h]
  have e : (m + 1).toNat = m.toNat + 1 := by omega
  have e2 : ((m.toNat : ℕ) : ℤ) = m := by omega
  simp only [SUM, e, Finset.sum_range_succ, e2]
/-- the first summand split off -/
theorem sum_shift (m : ℤ) (f : ℤ → ℝ) (hm : 0 ≤ m) : SUM (m + 1) f = f 0 + SUM m (fun k => f (k + 1)) := by
  have e : (m + 1).toNat = m.toNat + 1 := by omega
  simp only [SUM, e, Finset.sum_range_succ', Nat.cast_add, Nat.cast_one, Nat.cast_zero]
  ring
theorem sum_one (f) : SUM 1 f = f 0 := by simp [SUM]
theorem sum_scale (n : ℤ) (c : ℝ) (f g) (h : ∀ k, 0 ≤ k → k < n → f k = c * g k) : SUM n f = c * SUM n g := by
  rw [sum_ext n f (fun k => c * g k) h]; simp [SUM, Finset.mul_sum]
theorem sum_add (n : ℤ) (f g h) (e : ∀ k, 0 ≤ k → k < n → f k = g k + h k) : SUM n f = SUM n g + SUM n h := by
  rw [sum_ext n f (fun k => g k + h k) e]; simp [SUM, Finset.sum_add_distrib]
/-- a sum over rows of sums over columns -/
theorem sum_nested (R C : ℤ) (f : ℤ → ℝ) (g) (h : ∀ q, 0 ≤ q → q < R → f q = SUM C (g q)) : SUM R f = SUM2 R C g := by
  rw [sum_ext R f (fun q => SUM C (g q)) h]; rfl
/-- a sum over the flat index -/
theorem sum_flat (R C : ℤ) (hR : 0 ≤ R) (hC : 0 ≤ C) (f : ℤ → ℝ) (g) (h : ∀ q r, 0 ≤ q → q < R → 0 ≤ r → r < C → f (FLAT C q r) = g q r) : SUM (R * C) f = SUM2 R C g := by
  obtain ⟨a, rfl⟩ := Int.eq_ofNat_of_zero_le hR
  obtain ⟨b, rfl⟩ := Int.eq_ofNat_of_zero_le hC
  have e : ((a : ℤ) * (b : ℤ)).toNat = a * b := by exact_mod_cast Int.toNat_natCast (a * b)
  simp only [SUM, SUM2, e, Int.toNat_natCast]
  have key : ∀ a : ℕ, ∑ k ∈ range (a * b), f k = ∑ q ∈ range a, ∑ r ∈ range b, f ((q : ℤ) * b + r) := by
    intro a
    induction a with
    | zero => simp
    | succ a ih =>
      rw [Nat.succ_mul, Finset.sum_range_add, ih, Finset.sum_range_succ]
      congr 1
  rw [key]
  refine Finset.sum_congr rfl fun q hq => Finset.sum_congr rfl fun r hr => ?_
  have h1 := Finset.mem_range.mp hq; have h2 := Finset.mem_range.mp hr
  have := h q r (by omega) (by omega) (by omega) (by omega)
  simpa [FLAT] using this

-- flat indices
theorem flat_inj (c q r : ℤ) (h0 : 0 ≤ r) (h1 : r < c) : QUO c (FLAT c q r) = q ∧ REM c (FLAT c q r) = r := by
  have hc : 0 < c := by omega
  constructor
  · simp only [QUO, FLAT]; rw [Int.add_comm, Int.add_mul_ediv_right _ _ (by omega), Int.ediv_eq_zero_of_lt h0 h1]; omega
  · simp only [REM, FLAT]; rw [Int.add_comm, Int.add_mul_emod_self_right]; exact Int.emod_eq_of_lt h0 h1
theorem flat_split (c k : ℤ) : FLAT c (QUO c k) (REM c k) = k := by
  simp only [FLAT, QUO, REM]; rw [Int.mul_comm]; exact Int.mul_ediv_add_emod k c
theorem quo_rem (c k q r : ℤ) (h : k = q * c + r) (h0 : 0 ≤ r) (h1 : r < c) : QUO c k = q ∧ REM c k = r := by
  subst h; exact flat_inj c q r h0 h1
theorem flat_bound (R c q r : ℤ) (h0 : 0 ≤ q) (h1 : q < R) (h2 : 0 ≤ r) (h3 : r < c) : 0 ≤ FLAT c q r ∧ FLAT c q r < R * c := by
  simp only [FLAT]; constructor
  · have := Int.mul_nonneg h0 (by omega : 0 ≤ c); omega
  · nlinarith
theorem quo_bound (R c k : ℤ) (h0 : 0 ≤ k) (h1 : k < R * c) (hc : 0 ≤ c) : c ≥ 1 ∧ 0 ≤ QUO c k ∧ QUO c k < R ∧ 0 ≤ REM c k ∧ REM c k < c := by
  have hc1 : 1 ≤ c := by
    by_cases h : 0 < c
    · omega
    · have : c = 0 := by omega
      subst this; simp at h1; omega
  refine ⟨hc1, Int.ediv_nonneg h0 hc, ?_, Int.emod_nonneg _ (by omega), Int.emod_lt_of_pos _ (by omega)⟩
  exact Int.ediv_lt_of_lt_mul (by omega) h1
theorem quo_succ (c v : ℤ) (hc : c ≥ 1) : QUO c (v + 1) = (if REM c v + 1 = c then QUO c v + 1 else QUO c v) ∧ REM c (v + 1) = (if REM c v + 1 = c then 0 else REM c v + 1) := by
  have h1 : 0 ≤ REM c v := Int.emod_nonneg _ (by omega)
  have h2 : REM c v < c := Int.emod_lt_of_pos _ (by omega)
  have h3 : v = QUO c v * c + REM c v := by have := flat_split c v; simp only [FLAT] at this; omega
  split_ifs with h
  · exact quo_rem c (v + 1) (QUO c v + 1) 0 (by rw [Int.add_mul]; omega) (by omega) (by omega)
  · exact quo_rem c (v + 1) (QUO c v) (REM c v + 1) (by omega) (by omega) (by omega)

end VF
#print axioms VF.sum_empty
#print axioms VF.sum2_empty
#print axioms VF.sum_ext
#print axioms VF.sum2_ext
#print axioms VF.sum_succ
#print axioms VF.sum_shift
#print axioms VF.sum_scale
#print axioms VF.sum_add
#print axioms VF.sum_nested
#print axioms VF.sum_flat
#print axioms VF.flat_inj
#print axioms VF.flat_split
#print axioms VF.quo_rem
#print axioms VF.flat_bound
#print axioms VF.quo_bound
#print axioms VF.quo_succ
