/-
Machine-checked lemmas about the recursively defined determinant used by the contracts of Det, Adjoint and Inverse (vf/tasks_det.py).

`DET n M` is the function the contracts use: Laplace expansion along row 0 of the leading n x n part of M : Nat -> Nat -> Real.
-/
import Mathlib.LinearAlgebra.Matrix.Adjugate
import Mathlib.LinearAlgebra.Matrix.Determinant.Basic
import Mathlib.Data.Real.Basic

open Finset BigOperators Matrix

/-- M without row p and column q -/
def minor (M : ℕ → ℕ → ℝ) (p q : ℕ) : ℕ → ℕ → ℝ := fun i j => M (if i < p then i else i + 1) (if j < q then j else j + 1)
def sgn (k : ℕ) : ℝ := if k % 2 = 0 then 1 else -1
noncomputable def DET : ℕ → (ℕ → ℕ → ℝ) → ℝ
  | 0, _ => 1
  | n + 1, M => ∑ f ∈ range (n + 1), sgn f * M 0 f * DET n (minor M 0 f)

def toM (n : ℕ) (M : ℕ → ℕ → ℝ) : Matrix (Fin n) (Fin n) ℝ := fun i j => M i j

theorem sgn_eq (k : ℕ) : sgn k = (-1) ^ k := by
  unfold sgn
  rcases Nat.even_or_odd k with h | h
  · simp [h.neg_one_pow, Nat.even_iff.mp h]
  · simp [h.neg_one_pow, Nat.odd_iff.mp h]

theorem minor_sub (n : ℕ) (M : ℕ → ℕ → ℝ) (p q : Fin (n + 1)) :
    toM n (minor M p q) = (toM (n + 1) M).submatrix p.succAbove q.succAbove := by
  ext i j
  simp only [toM, minor, Matrix.submatrix_apply]
  congr 1
  · simp only [Fin.succAbove, Fin.lt_def, Fin.val_castSucc]; split_ifs <;> simp
  · simp only [Fin.succAbove, Fin.lt_def, Fin.val_castSucc]; split_ifs <;> simp

theorem DET_eq (n : ℕ) : ∀ M, DET n M = (toM n M).det := by
  induction n with
  | zero => intro M; simp [DET]
  | succ n ih =>
    intro M
    rw [Matrix.det_succ_row_zero, DET, Finset.sum_range]
    refine Finset.sum_congr rfl fun f _ => ?_
    rw [ih, sgn_eq]
    have := minor_sub n M 0 f
    simp only [Fin.val_zero] at this
    rw [this]
    have h0 : (0 : Fin (n+1)).succAbove = Fin.succ := by ext; simp
    rw [h0]
    simp [toM]

/-- the adjugate the code computes -/
noncomputable def ADJ (n : ℕ) (M : ℕ → ℕ → ℝ) (i j : ℕ) : ℝ := sgn (i + j) * DET (n - 1) (minor M j i)

theorem ADJ_eq (n : ℕ) (M : ℕ → ℕ → ℝ) (i j : Fin (n + 1)) : ADJ (n + 1) M i j = (toM (n + 1) M).adjugate i j := by
  rw [Matrix.adjugate_fin_succ_eq_det_submatrix, ADJ, sgn_eq, DET_eq, Nat.add_sub_cancel, minor_sub, Nat.add_comm]

/-- lemma used for Inverse: the matrix times its adjugate -/
theorem mul_ADJ (n : ℕ) (hn : 1 ≤ n) (M : ℕ → ℕ → ℝ) (q s : ℕ) (hq : q < n) (hs : s < n) :
    ∑ k ∈ range n, M q k * ADJ n M k s = if q = s then DET n M else 0 := by
  obtain ⟨n, rfl⟩ : ∃ m, n = m + 1 := ⟨n - 1, by omega⟩
  have h := congrFun (congrFun (Matrix.mul_adjugate (toM (n + 1) M)) ⟨q, hq⟩) ⟨s, hs⟩
  rw [Matrix.mul_apply] at h
  rw [Finset.sum_range, DET_eq]
  have e : ∀ k : Fin (n + 1), M q k * ADJ (n + 1) M k s = toM (n + 1) M ⟨q, hq⟩ k * (toM (n + 1) M).adjugate k ⟨s, hs⟩ := by
    intro k; rw [← ADJ_eq n M k ⟨s, hs⟩]; simp [toM]
  rw [Finset.sum_congr rfl fun k _ => e k, h]
  simp [Matrix.smul_apply, Matrix.one_apply, Fin.ext_iff]

theorem ADJ_mul (n : ℕ) (hn : 1 ≤ n) (M : ℕ → ℕ → ℝ) (q s : ℕ) (hq : q < n) (hs : s < n) :
    ∑ k ∈ range n, ADJ n M q k * M k s = if q = s then DET n M else 0 := by
  obtain ⟨n, rfl⟩ : ∃ m, n = m + 1 := ⟨n - 1, by omega⟩
  have h := congrFun (congrFun (Matrix.adjugate_mul (toM (n + 1) M)) ⟨q, hq⟩) ⟨s, hs⟩
  rw [Matrix.mul_apply] at h
  rw [Finset.sum_range, DET_eq]
  have e : ∀ k : Fin (n + 1), ADJ (n + 1) M q k * M k s = (toM (n + 1) M).adjugate ⟨q, hq⟩ k * toM (n + 1) M k ⟨s, hs⟩ := by
    intro k; rw [← ADJ_eq n M ⟨q, hq⟩ k]; simp [toM]
  rw [Finset.sum_congr rfl fun k _ => e k, h]
  simp [Matrix.smul_apply, Matrix.one_apply, Fin.ext_iff]

#print axioms mul_ADJ
#print axioms ADJ_mul
