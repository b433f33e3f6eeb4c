/-
The weighted multiplicative update never increases the weighted squared residual sum.

`colLoss`  : loss of one data vector v (weights e) represented with basis B (rows i, components l) and coefficients a.
`mu`       : the multiplicative update of the coefficients:  a l * (Σ_i B i l (e i v i)) / (Σ_i B i l (e i (B a) i)).
One LS-NMF step applies `mu` to every column of H (basis W) and then to every row of W (basis Hᵀ of the new H).
-/
import Mathlib.Algebra.Order.BigOperators.Ring.Finset
import Mathlib.Data.Real.Basic
import Mathlib.Tactic

open Finset

namespace LsNmf

variable {ι κ : Type*} [Fintype ι] [Fintype κ]

noncomputable def fit (B : ι → κ → ℝ) (a : κ → ℝ) (i : ι) : ℝ := ∑ l, B i l * a l
noncomputable def colLoss (v e : ι → ℝ) (B : ι → κ → ℝ) (a : κ → ℝ) : ℝ := ∑ i, e i * (v i - fit B a i) ^ 2
noncomputable def numr (v e : ι → ℝ) (B : ι → κ → ℝ) (l : κ) : ℝ := ∑ i, B i l * (e i * v i)
noncomputable def denr (e : ι → ℝ) (B : ι → κ → ℝ) (a : κ → ℝ) (l : κ) : ℝ := ∑ i, B i l * (e i * fit B a i)
noncomputable def mu (v e : ι → ℝ) (B : ι → κ → ℝ) (a : κ → ℝ) (l : κ) : ℝ :=
  a l * (numr v e B l / denr e B a l)

theorem cross (v e : ι → ℝ) (B : ι → κ → ℝ) (b : κ → ℝ) :
    ∑ i, e i * (v i * fit B b i) = ∑ l, b l * numr v e B l := by
  unfold fit numr
  simp only [Finset.mul_sum]
  rw [Finset.sum_comm]
  refine Finset.sum_congr rfl fun l _ => Finset.sum_congr rfl fun i _ => by ring

theorem quad (e : ι → ℝ) (B : ι → κ → ℝ) (a w : κ → ℝ) :
    ∑ i, e i * (fit B a i * fit B w i) = ∑ l, w l * denr e B a l := by
  unfold denr
  conv_lhs => enter [2, i]; rw [show fit B w i = ∑ l, B i l * w l from rfl]
  simp only [Finset.mul_sum]
  rw [Finset.sum_comm]
  refine Finset.sum_congr rfl fun l _ => Finset.sum_congr rfl fun i _ => by ring

theorem expand (v e : ι → ℝ) (B : ι → κ → ℝ) (a : κ → ℝ) :
    colLoss v e B a = ∑ i, e i * v i ^ 2 - 2 * ∑ i, e i * (v i * fit B a i) + ∑ i, e i * fit B a i ^ 2 := by
  unfold colLoss
  rw [Finset.mul_sum, ← Finset.sum_sub_distrib, ← Finset.sum_add_distrib]
  exact Finset.sum_congr rfl fun i _ => by ring

/-- the update of one coefficient vector does not increase its loss -/
theorem mu_le (v e : ι → ℝ) (B : ι → κ → ℝ) (a : κ → ℝ) (he : ∀ i, 0 ≤ e i) (hB : ∀ i l, 0 ≤ B i l)
    (ha : ∀ l, 0 ≤ a l) (hd : ∀ l, denr e B a l ≠ 0) :
    colLoss v e B (mu v e B a) ≤ colLoss v e B a := by
  set r : κ → ℝ := fun l => numr v e B l / denr e B a l with hr
  have hN : ∀ l, numr v e B l = r l * denr e B a l := fun l => by
    simp only [hr]; field_simp [hd l]
  have hmu : mu v e B a = fun l => a l * r l := rfl
  -- Cauchy-Schwarz, row by row
  have hJ : ∀ i, fit B (mu v e B a) i ^ 2 ≤ fit B a i * fit B (fun l => a l * r l ^ 2) i := by
    intro i
    unfold fit
    refine Finset.sum_sq_le_sum_mul_sum_of_sq_le_mul _ (fun l _ => mul_nonneg (hB i l) (ha l))
      (fun l _ => mul_nonneg (hB i l) (mul_nonneg (ha l) (sq_nonneg _))) (fun l _ => le_of_eq ?_)
    rw [hmu]; ring
  have h1 : ∑ i, e i * fit B (mu v e B a) i ^ 2 ≤ ∑ l, (a l * r l ^ 2) * denr e B a l := by
    rw [← quad e B a (fun l => a l * r l ^ 2)]
    exact Finset.sum_le_sum fun i _ => mul_le_mul_of_nonneg_left (hJ i) (he i)
  have h2 : ∑ i, e i * fit B a i ^ 2 = ∑ l, a l * denr e B a l := by
    rw [← quad e B a a]
    exact Finset.sum_congr rfl fun i _ => by ring
  have hden : ∀ l, 0 ≤ denr e B a l := fun l =>
    Finset.sum_nonneg fun i _ => mul_nonneg (hB i l) (mul_nonneg (he i)
      (Finset.sum_nonneg fun q _ => mul_nonneg (hB i q) (ha q)))
  rw [expand, expand, cross, cross, h2]
  have h3 : ∑ l, mu v e B a l * numr v e B l = ∑ l, (a l * r l ^ 2) * denr e B a l := by
    refine Finset.sum_congr rfl fun l _ => ?_
    rw [hmu, hN l]; ring
  rw [h3]
  have h4 : 0 ≤ ∑ l, a l * denr e B a l * (1 - r l) ^ 2 :=
    Finset.sum_nonneg fun l _ => mul_nonneg (mul_nonneg (ha l) (hden l)) (sq_nonneg _)
  have h5 : ∑ l, a l * denr e B a l * (1 - r l) ^ 2
      = ∑ l, a l * denr e B a l - 2 * ∑ l, a l * numr v e B l + ∑ l, (a l * r l ^ 2) * denr e B a l := by
    rw [Finset.mul_sum, ← Finset.sum_sub_distrib, ← Finset.sum_add_distrib]
    refine Finset.sum_congr rfl fun l _ => ?_
    rw [hN l]; ring
  linarith [h1, h4, h5]

variable {m n k : Type*} [Fintype m] [Fintype n] [Fintype k]

/-- weighted squared residual sum of a factorisation -/
noncomputable def loss (V E : m → n → ℝ) (W : m → k → ℝ) (H : k → n → ℝ) : ℝ :=
  ∑ i, ∑ j, E i j * (V i j - ∑ l, W i l * H l j) ^ 2

noncomputable def newH (V E : m → n → ℝ) (W : m → k → ℝ) (H : k → n → ℝ) : k → n → ℝ := fun l j =>
  H l j * ((∑ i, W i l * (E i j * V i j)) / (∑ i, W i l * (E i j * ∑ q, W i q * H q j)))

noncomputable def newW (V E : m → n → ℝ) (W : m → k → ℝ) (H : k → n → ℝ) : m → k → ℝ := fun i l =>
  W i l * ((∑ j, (E i j * V i j) * H l j) / (∑ j, (E i j * ∑ q, W i q * H q j) * H l j))

theorem h_step (V E : m → n → ℝ) (W : m → k → ℝ) (H : k → n → ℝ) (hE : ∀ i j, 0 ≤ E i j) (hW : ∀ i l, 0 ≤ W i l)
    (hH : ∀ l j, 0 ≤ H l j) (hd : ∀ l j, (∑ i, W i l * (E i j * ∑ q, W i q * H q j)) ≠ 0) :
    loss V E W (newH V E W H) ≤ loss V E W H := by
  unfold loss
  rw [Finset.sum_comm, Finset.sum_comm (f := fun i j => E i j * (V i j - ∑ l, W i l * H l j) ^ 2)]
  refine Finset.sum_le_sum fun j _ => ?_
  exact mu_le (fun i => V i j) (fun i => E i j) W (fun l => H l j) (fun i => hE i j) hW (fun l => hH l j)
    (fun l => hd l j)

theorem w_step (V E : m → n → ℝ) (W : m → k → ℝ) (H : k → n → ℝ) (hE : ∀ i j, 0 ≤ E i j) (hW : ∀ i l, 0 ≤ W i l)
    (hH : ∀ l j, 0 ≤ H l j) (hd : ∀ i l, (∑ j, (E i j * ∑ q, W i q * H q j) * H l j) ≠ 0) :
    loss V E (newW V E W H) H ≤ loss V E W H := by
  unfold loss
  refine Finset.sum_le_sum fun i _ => ?_
  have hf : ∀ a : k → ℝ, ∀ j, fit (fun j l => H l j) a j = ∑ l, a l * H l j := fun a j =>
    Finset.sum_congr rfl fun l _ => mul_comm _ _
  have hden : ∀ l, denr (fun j => E i j) (fun j l => H l j) (fun l => W i l) l
      = ∑ j, (E i j * ∑ q, W i q * H q j) * H l j := fun l => by
    unfold denr
    refine Finset.sum_congr rfl fun j _ => ?_
    rw [hf]; ring
  have hnum : ∀ l, numr (fun j => V i j) (fun j => E i j) (fun j l => H l j) l = ∑ j, (E i j * V i j) * H l j :=
    fun l => Finset.sum_congr rfl fun j _ => by ring
  have := mu_le (fun j => V i j) (fun j => E i j) (fun j l => H l j) (fun l => W i l) (fun j => hE i j)
    (fun j l => hH l j) (fun l => hW i l) (fun l => by rw [hden]; exact hd i l)
  have hmu : mu (fun j => V i j) (fun j => E i j) (fun j l => H l j) (fun l => W i l) = fun l => newW V E W H i l := by
    funext l; unfold mu newW; rw [hden, hnum]
  rw [hmu] at this
  simpa only [colLoss, hf] using this

/-- One whole LS-NMF step: for non-negative data without an all-zero row or column, positive weights and factors, the
    new factors are positive again and the loss has not increased (profiles held or not).  Positivity is what lets the
    statement be iterated over any number of updates. -/
theorem step (V E : m → n → ℝ) (W : m → k → ℝ) (H : k → n → ℝ) (hV : ∀ i j, 0 ≤ V i j) (hE : ∀ i j, 0 < E i j)
    (hW : ∀ i l, 0 < W i l) (hH : ∀ l j, 0 < H l j) (hc : ∀ j, ∃ i, 0 < V i j) (hr : ∀ i, ∃ j, 0 < V i j) :
    (∀ l j, 0 < newH V E W H l j) ∧ (∀ i l, 0 < newW V E W (newH V E W H) i l) ∧
    (∀ i l, 0 < newW V E W H i l) ∧
    loss V E (newW V E W (newH V E W H)) (newH V E W H) ≤ loss V E W H ∧
    loss V E (newW V E W H) H ≤ loss V E W H := by
  have fitpos : ∀ (W : m → k → ℝ) (H : k → n → ℝ), (∀ i l, 0 < W i l) → (∀ l j, 0 < H l j) → ∀ (l : k) i j,
      0 < ∑ q, W i q * H q j := fun W H hW hH l i j =>
    Finset.sum_pos (fun q _ => mul_pos (hW i q) (hH q j)) ⟨l, Finset.mem_univ _⟩
  have dH : ∀ l j, 0 < ∑ i, W i l * (E i j * ∑ q, W i q * H q j) := fun l j => by
    obtain ⟨i0, _⟩ := hc j
    exact Finset.sum_pos (fun i _ => mul_pos (hW i l) (mul_pos (hE i j) (fitpos W H hW hH l i j))) ⟨i0, Finset.mem_univ _⟩
  have pH : ∀ l j, 0 < newH V E W H l j := fun l j => by
    obtain ⟨i0, h0⟩ := hc j
    refine mul_pos (hH l j) (div_pos ?_ (dH l j))
    exact Finset.sum_pos' (fun i _ => mul_nonneg (hW i l).le (mul_nonneg (hE i j).le (hV i j)))
      ⟨i0, Finset.mem_univ _, mul_pos (hW i0 l) (mul_pos (hE i0 j) h0)⟩
  have dW : ∀ (H' : k → n → ℝ), (∀ l j, 0 < H' l j) → ∀ i l, 0 < ∑ j, (E i j * ∑ q, W i q * H' q j) * H' l j :=
    fun H' hH' i l => by
      obtain ⟨j0, _⟩ := hr i
      exact Finset.sum_pos (fun j _ => mul_pos (mul_pos (hE i j) (fitpos W H' hW hH' l i j)) (hH' l j))
        ⟨j0, Finset.mem_univ _⟩
  have pW : ∀ (H' : k → n → ℝ), (∀ l j, 0 < H' l j) → ∀ i l, 0 < newW V E W H' i l := fun H' hH' i l => by
    obtain ⟨j0, h0⟩ := hr i
    refine mul_pos (hW i l) (div_pos ?_ (dW H' hH' i l))
    exact Finset.sum_pos' (fun j _ => mul_nonneg (mul_nonneg (hE i j).le (hV i j)) (hH' l j).le)
      ⟨j0, Finset.mem_univ _, mul_pos (mul_pos (hE i j0) h0) (hH' l j0)⟩
  refine ⟨pH, pW _ pH, pW _ hH, ?_, ?_⟩
  · exact (w_step V E W _ (fun i j => (hE i j).le) (fun i l => (hW i l).le) (fun l j => (pH l j).le)
      (fun i l => (dW _ pH i l).ne')).trans
      (h_step V E W H (fun i j => (hE i j).le) (fun i l => (hW i l).le) (fun l j => (hH l j).le) (fun l j => (dH l j).ne'))
  · exact w_step V E W H (fun i j => (hE i j).le) (fun i l => (hW i l).le) (fun l j => (hH l j).le)
      (fun i l => (dW _ hH i l).ne')

end LsNmf

#print axioms LsNmf.mu_le
#print axioms LsNmf.h_step
#print axioms LsNmf.w_step
#print axioms LsNmf.step
