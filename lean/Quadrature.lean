import Mathlib.Analysis.SpecialFunctions.Trigonometric.Basic
import Mathlib.Analysis.SpecialFunctions.Complex.Log
import Mathlib.Algebra.BigOperators.Intervals
import Mathlib.Tactic

/-! Facts about sums over the grid of the quadrature, for all sizes (properties C04 and C05). -/

open Finset

namespace Quadrature

/-- A sum over the flat grid index `j = a * n + b` is a double sum. -/
theorem flat (m n : ℕ) (G : ℤ → ℤ → ℝ) :
    ∑ j ∈ range (m * n), G ((j / n : ℕ)) ((j % n : ℕ)) = ∑ a ∈ range m, ∑ b ∈ range n, G a b := by
  induction m with
  | zero => simp
  | succ m ih =>
    rw [Nat.succ_mul, sum_range_add, ih, sum_range_succ]
    congr 1
    apply sum_congr rfl
    intro b hb
    have hb' := mem_range.mp hb
    have h1 : (m * n + b) / n = m := by
      rw [Nat.mul_comm, Nat.mul_add_div (by omega)]
      simp [Nat.div_eq_of_lt hb']
    have h2 : (m * n + b) % n = b := by
      rw [Nat.mul_comm, Nat.mul_add_mod]
      exact Nat.mod_eq_of_lt hb'
    rw [h1, h2]

/-- A sum over one period does not depend on the direction. -/
theorem reflect (n : ℕ) (f : ℤ → ℝ) (hp : ∀ b, f (b + n) = f b) :
    ∑ b ∈ range n, f (-(b : ℤ)) = ∑ b ∈ range n, f b := by
  cases n with
  | zero => simp
  | succ n =>
    rw [sum_range_succ', sum_range_succ' (fun b : ℕ => f (b : ℤ))]
    have h : ∑ b ∈ range n, f (-((b + 1 : ℕ) : ℤ)) = ∑ b ∈ range n, f ((b + 1 : ℕ) : ℤ) := by
      rw [← sum_range_reflect (fun b : ℕ => f ((b + 1 : ℕ) : ℤ))]
      apply sum_congr rfl
      intro b hb
      have hb' := mem_range.mp hb
      rw [← hp]
      congr 1
      push_cast
      omega
    rw [h]
    simp

variable (M n : ℕ) (G : ℤ → ℤ → ℝ)

/-- Half of the poloidal grid with half weight on its two edges gives the sum over the whole grid, for a function with
the symmetry of a stellarator-symmetric equilibrium (C04). -/
theorem half_grid (hev : ∀ a b, G (-a) (-b) = G a b) (ha : ∀ a b, G (a + (2 * M : ℕ)) b = G a b)
    (hb : ∀ a b, G a (b + n) = G a b) :
    ∑ j ∈ range (2 * M * n), G ((j / n : ℕ)) ((j % n : ℕ))
      = 2 * ∑ j ∈ range ((M + 1) * n), G ((j / n : ℕ)) ((j % n : ℕ))
        - ∑ j ∈ range n, G ((j / n : ℕ)) ((j % n : ℕ))
        - (∑ j ∈ range ((M + 1) * n), G ((j / n : ℕ)) ((j % n : ℕ))
            - ∑ j ∈ range (M * n), G ((j / n : ℕ)) ((j % n : ℕ))) := by
  have h1 : ∑ j ∈ range n, G ((j / n : ℕ)) ((j % n : ℕ)) = ∑ a ∈ range 1, ∑ b ∈ range n, G a b := by
    have := flat 1 n G
    rwa [Nat.one_mul] at this
  rw [flat, flat, flat, h1]
  have hS : ∀ a : ℤ, ∑ b ∈ range n, G (-a) b = ∑ b ∈ range n, G a b := by
    intro a
    rw [← reflect n (fun b => G (-a) b) (hb (-a))]
    exact sum_congr rfl fun b _ => hev a b
  have hT : ∀ a : ℤ, ∑ b ∈ range n, G (a + (2 * M : ℕ)) b = ∑ b ∈ range n, G a b :=
    fun a => sum_congr rfl fun b _ => ha a b
  generalize hs : (fun a : ℤ => ∑ b ∈ range n, G a b) = s at *
  have es : ∀ a : ℤ, ∑ b ∈ range n, G a b = s a := fun a => by rw [← hs]
  simp only [es] at *
  have h2 : ∑ a ∈ range (2 * M), s a = ∑ a ∈ range M, s a + ∑ a ∈ range M, s ((a + 1 : ℕ)) := by
    rw [two_mul, sum_range_add]
    congr 1
    rw [← sum_range_reflect (fun a : ℕ => s ((a + 1 : ℕ)))]
    apply sum_congr rfl
    intro a ha'
    have := mem_range.mp ha'
    rw [← hS, ← hT]
    congr 1
    push_cast
    omega
  have h3 : ∑ a ∈ range (M + 1), s a = ∑ a ∈ range M, s a + s M := sum_range_succ (fun a : ℕ => s a) M
  have h4 : ∑ a ∈ range (M + 1), s a = ∑ a ∈ range M, s ((a + 1 : ℕ)) + s (0 : ℕ) :=
    sum_range_succ' (fun a : ℕ => s a) M
  rw [h2]
  simp only [sum_range_one]
  linarith

/-- The quadrature of a function of the other parity vanishes (C04). -/
theorem odd_zero (hod : ∀ a b, G (-a) (-b) = -G a b) (ha : ∀ a b, G (a + M) b = G a b)
    (hb : ∀ a b, G a (b + n) = G a b) :
    ∑ j ∈ range (M * n), G ((j / n : ℕ)) ((j % n : ℕ)) = 0 := by
  rw [flat]
  have hS : ∀ a : ℤ, ∑ b ∈ range n, G (-a) b = -∑ b ∈ range n, G a b := by
    intro a
    rw [← reflect n (fun b => G (-a) b) (hb (-a)), ← sum_neg_distrib]
    exact sum_congr rfl fun b _ => hod a b
  have h := reflect M (fun a => ∑ b ∈ range n, G a b) (fun a => sum_congr rfl fun b _ => ha a b)
  simp only [hS, sum_neg_distrib] at h
  linarith

/-! ### Orthogonality on the grid (C05) -/

/-- Angle of the mode `(m, q)` at grid point `(a, b)` of `T × n` points. -/
noncomputable def ang (T n : ℕ) (m q a b : ℤ) : ℝ :=
  m * (2 * Real.pi * a / T) - q * (2 * Real.pi * b / n)

theorem roots (N : ℕ) (k : ℤ) (h : ¬ (N : ℤ) ∣ k) (hN : 0 < N) :
    ∑ a ∈ range N, Complex.exp (((2 * Real.pi * k * a / N : ℝ) : ℂ) * Complex.I) = 0 := by
  have hN' : (N : ℂ) ≠ 0 := by exact_mod_cast hN.ne'
  set z := Complex.exp (((2 * Real.pi * k / N : ℝ) : ℂ) * Complex.I) with hz
  have hp : ∀ a : ℕ, Complex.exp (((2 * Real.pi * k * a / N : ℝ) : ℂ) * Complex.I) = z ^ a := by
    intro a
    rw [hz, ← Complex.exp_nat_mul]
    congr 1
    push_cast
    ring
  simp only [hp]
  have h1 : z ≠ 1 := by
    intro h1
    rw [hz, Complex.exp_eq_one_iff] at h1
    obtain ⟨j, hj⟩ := h1
    apply h
    refine ⟨j, ?_⟩
    have hpi : (Real.pi : ℂ) ≠ 0 := by exact_mod_cast Real.pi_ne_zero
    have h2 : (k : ℂ) = N * j := by
      have h3 : ((2 * Real.pi * k / N : ℝ) : ℂ) = 2 * Real.pi * j := by
        have := mul_right_cancel₀ Complex.I_ne_zero (a := ((2 * Real.pi * k / N : ℝ) : ℂ)) (c := (2 * Real.pi * j : ℂ)) (by rw [hj]; ring)
        exact this
      push_cast at h3
      field_simp at h3
      linear_combination h3
    exact_mod_cast h2
  have h2 : z ^ N = 1 := by
    rw [← hp, Complex.exp_eq_one_iff]
    refine ⟨k, ?_⟩
    push_cast
    field_simp
  have := mul_neg_geom_sum z N
  rw [h2, sub_self] at this
  rcases mul_eq_zero.mp this with h3 | h3
  · exact absurd (sub_eq_zero.mp h3).symm h1
  · exact h3

theorem ang_add (T n : ℕ) (m q m' q' a b : ℤ) : ang T n m q a b + ang T n m' q' a b = ang T n (m + m') (q + q') a b := by
  unfold ang; push_cast; ring

theorem ang_sub (T n : ℕ) (m q m' q' a b : ℤ) : ang T n m q a b - ang T n m' q' a b = ang T n (m - m') (q - q') a b := by
  unfold ang; push_cast; ring

theorem ang_shift_a (T n : ℕ) (hT : 0 < T) (m q a b : ℤ) : ang T n m q (a + T) b = ang T n m q a b + m * (2 * Real.pi) := by
  have : (T : ℝ) ≠ 0 := by exact_mod_cast hT.ne'
  unfold ang; push_cast; field_simp; ring

theorem ang_shift_b (T n : ℕ) (hn : 0 < n) (m q a b : ℤ) : ang T n m q a (b + n) = ang T n m q a b - q * (2 * Real.pi) := by
  have : (n : ℝ) ≠ 0 := by exact_mod_cast hn.ne'
  unfold ang; push_cast; field_simp; ring

theorem ang_neg (T n : ℕ) (m q a b : ℤ) : ang T n m q (-a) (-b) = -ang T n m q a b := by
  unfold ang; push_cast; ring

theorem exp_sum (T n : ℕ) (hT : 0 < T) (hn : 0 < n) (k l : ℤ) (hk : |k| < T) (hl : |l| < n) :
    ∑ a ∈ range T, ∑ b ∈ range n, Complex.exp ((ang T n k l a b : ℂ) * Complex.I)
      = if k = 0 ∧ l = 0 then (T : ℂ) * n else 0 := by
  have hs : ∑ a ∈ range T, ∑ b ∈ range n, Complex.exp ((ang T n k l a b : ℂ) * Complex.I)
      = (∑ a ∈ range T, Complex.exp (((2 * Real.pi * k * a / T : ℝ) : ℂ) * Complex.I))
        * ∑ b ∈ range n, Complex.exp (((2 * Real.pi * (-l : ℤ) * b / n : ℝ) : ℂ) * Complex.I) := by
    rw [sum_mul_sum]
    apply sum_congr rfl; intro a _
    apply sum_congr rfl; intro b _
    rw [← Complex.exp_add]
    congr 1
    unfold ang
    push_cast
    ring
  rw [hs]
  split_ifs with h
  · obtain ⟨rfl, rfl⟩ := h
    simp
  · by_cases hk0 : k = 0
    · have hl0 : l ≠ 0 := fun e => h ⟨hk0, e⟩
      have : ¬ (n : ℤ) ∣ -l := by
        intro hd
        have := Int.eq_zero_of_abs_lt_dvd hd (by rwa [abs_neg])
        omega
      rw [roots n (-l) this hn, mul_zero]
    · have : ¬ (T : ℤ) ∣ k := fun hd => hk0 (Int.eq_zero_of_abs_lt_dvd hd hk)
      rw [roots T k this hT, zero_mul]

theorem cos_sum (T n : ℕ) (hT : 0 < T) (hn : 0 < n) (k l : ℤ) (hk : |k| < T) (hl : |l| < n) :
    ∑ a ∈ range T, ∑ b ∈ range n, Real.cos (ang T n k l a b) = if k = 0 ∧ l = 0 then (T : ℝ) * n else 0 := by
  have h := congrArg Complex.re (exp_sum T n hT hn k l hk hl)
  simp only [Complex.re_sum, Complex.exp_ofReal_mul_I_re] at h
  rw [h]
  split_ifs <;> simp [Complex.mul_re]

theorem sin_sum (T n : ℕ) (hT : 0 < T) (hn : 0 < n) (k l : ℤ) (hk : |k| < T) (hl : |l| < n) :
    ∑ a ∈ range T, ∑ b ∈ range n, Real.sin (ang T n k l a b) = 0 := by
  have h := congrArg Complex.im (exp_sum T n hT hn k l hk hl)
  simp only [Complex.im_sum, Complex.exp_ofReal_mul_I_im] at h
  rw [h]
  split_ifs <;> simp [Complex.mul_im]

section modes
variable (T n : ℕ) (K L : ℤ) (hK : 2 * K < T) (hL : 2 * L < n) (hn : 0 < n)
  (m q m' q' : ℤ) (hm : 0 ≤ m ∧ m ≤ K) (hm' : 0 ≤ m' ∧ m' ≤ K) (hq : -L ≤ q ∧ q ≤ L) (hq' : -L ≤ q' ∧ q' ≤ L)
  (h0 : m = 0 → 0 ≤ q) (h0' : m' = 0 → 0 ≤ q')
include hK hL hn hm hm' hq hq' h0 h0'

theorem cos_cos : ∑ a ∈ range T, ∑ b ∈ range n, Real.cos (ang T n m q a b) * Real.cos (ang T n m' q' a b)
    = if m' = m ∧ q' = q then (T : ℝ) * n / 2 * (if m = 0 ∧ q = 0 then 2 else 1) else 0 := by
  have hT : 0 < T := by omega
  have e : ∀ a b : ℤ, Real.cos (ang T n m q a b) * Real.cos (ang T n m' q' a b)
      = (Real.cos (ang T n (m - m') (q - q') a b) + Real.cos (ang T n (m + m') (q + q') a b)) / 2 := by
    intro a b
    rw [← ang_sub, ← ang_add, Real.cos_sub, Real.cos_add]; ring
  simp only [e, ← sum_div, sum_add_distrib]
  rw [cos_sum T n hT hn _ _ (by rw [abs_lt]; omega) (by rw [abs_lt]; omega),
      cos_sum T n hT hn _ _ (by rw [abs_lt]; omega) (by rw [abs_lt]; omega)]
  by_cases h : m' = m ∧ q' = q
  · obtain ⟨rfl, rfl⟩ := h
    by_cases hz : m' = 0 ∧ q' = 0
    · obtain ⟨rfl, rfl⟩ := hz; simp
    · simp [hz]
  · have h1 : ¬ (m - m' = 0 ∧ q - q' = 0) := by omega
    have h2 : ¬ (m + m' = 0 ∧ q + q' = 0) := by
      rintro ⟨e1, e2⟩
      have : m = 0 := by omega
      have : m' = 0 := by omega
      have := h0 ‹_›
      have := h0' ‹_›
      omega
    simp [h, h1, h2]

theorem sin_sin : ∑ a ∈ range T, ∑ b ∈ range n, Real.sin (ang T n m q a b) * Real.sin (ang T n m' q' a b)
    = if m' = m ∧ q' = q then (T : ℝ) * n / 2 * (if m = 0 ∧ q = 0 then 0 else 1) else 0 := by
  have hT : 0 < T := by omega
  have e : ∀ a b : ℤ, Real.sin (ang T n m q a b) * Real.sin (ang T n m' q' a b)
      = (Real.cos (ang T n (m - m') (q - q') a b) - Real.cos (ang T n (m + m') (q + q') a b)) / 2 := by
    intro a b
    rw [← ang_sub, ← ang_add, Real.cos_sub, Real.cos_add]; ring
  simp only [e, ← sum_div, sum_sub_distrib]
  rw [cos_sum T n hT hn _ _ (by rw [abs_lt]; omega) (by rw [abs_lt]; omega),
      cos_sum T n hT hn _ _ (by rw [abs_lt]; omega) (by rw [abs_lt]; omega)]
  by_cases h : m' = m ∧ q' = q
  · obtain ⟨rfl, rfl⟩ := h
    by_cases hz : m' = 0 ∧ q' = 0
    · obtain ⟨rfl, rfl⟩ := hz; simp
    · simp [hz]
  · have h1 : ¬ (m - m' = 0 ∧ q - q' = 0) := by omega
    have h2 : ¬ (m + m' = 0 ∧ q + q' = 0) := by
      rintro ⟨e1, e2⟩
      have : m = 0 := by omega
      have : m' = 0 := by omega
      have := h0 ‹_›
      have := h0' ‹_›
      omega
    simp [h, h1, h2]

omit h0 h0' in
theorem cos_sin : ∑ a ∈ range T, ∑ b ∈ range n, Real.cos (ang T n m q a b) * Real.sin (ang T n m' q' a b) = 0 := by
  have hT : 0 < T := by omega
  have e : ∀ a b : ℤ, Real.cos (ang T n m q a b) * Real.sin (ang T n m' q' a b)
      = (Real.sin (ang T n (m + m') (q + q') a b) - Real.sin (ang T n (m - m') (q - q') a b)) / 2 := by
    intro a b
    rw [← ang_sub, ← ang_add, Real.sin_sub, Real.sin_add]; ring
  simp only [e, ← sum_div, sum_sub_distrib]
  rw [sin_sum T n hT hn _ _ (by rw [abs_lt]; omega) (by rw [abs_lt]; omega),
      sin_sum T n hT hn _ _ (by rw [abs_lt]; omega) (by rw [abs_lt]; omega)]
  simp

end modes

section identity
variable (T n : ℕ) (K L : ℤ) (hK : 2 * K < T) (hL : 2 * L < n) (hn : 0 < n) (mo qo : ℤ)
  (hmo : 0 ≤ mo ∧ mo ≤ K) (hqo : -L ≤ qo ∧ qo ≤ L) (h0o : mo = 0 → 0 ≤ qo)
  (cnt : ℕ) (m q : ℕ → ℤ) (c s : ℕ → ℝ)
  (hm : ∀ i < cnt, 0 ≤ m i ∧ m i ≤ K) (hq : ∀ i < cnt, -L ≤ q i ∧ q i ≤ L) (h0 : ∀ i < cnt, m i = 0 → 0 ≤ q i)
include hK hL hn hmo hqo h0o hm hq h0

/-- The field of the input series at grid point `(a, b)`. -/
noncomputable def field (T n cnt : ℕ) (m q : ℕ → ℤ) (c s : ℕ → ℝ) (a b : ℤ) : ℝ :=
  ∑ i ∈ range cnt, (c i * Real.cos (ang T n (m i) (q i) a b) + s i * Real.sin (ang T n (m i) (q i) a b))

omit hK hL hn hmo hqo h0o hm hq h0 in
theorem swap (f : ℤ → ℤ → ℝ) : ∑ a ∈ range T, ∑ b ∈ range n, f a b * field T n cnt m q c s a b
    = ∑ i ∈ range cnt, (c i * ∑ a ∈ range T, ∑ b ∈ range n, f a b * Real.cos (ang T n (m i) (q i) a b)
        + s i * ∑ a ∈ range T, ∑ b ∈ range n, f a b * Real.sin (ang T n (m i) (q i) a b)) := by
  unfold field
  simp only [mul_sum, ← sum_add_distrib]
  have : ∀ a : ℕ, ∑ b ∈ range n, ∑ i ∈ range cnt, f a b * (c i * Real.cos (ang T n (m i) (q i) a b) + s i * Real.sin (ang T n (m i) (q i) a b))
      = ∑ i ∈ range cnt, ∑ b ∈ range n, f a b * (c i * Real.cos (ang T n (m i) (q i) a b) + s i * Real.sin (ang T n (m i) (q i) a b)) :=
    fun a => sum_comm
  simp only [this]
  rw [sum_comm]
  apply sum_congr rfl; intro i _
  apply sum_congr rfl; intro a _
  apply sum_congr rfl; intro b _
  ring

/-- Quadrature of a series against a cosine of the output list: the amplitude the series carries for that mode (C05). -/
theorem identity_cos :
    2 / T / n * (∑ j ∈ range (T * n), Real.cos (ang T n mo qo ((j / n : ℕ)) ((j % n : ℕ))) * field T n cnt m q c s ((j / n : ℕ)) ((j % n : ℕ)))
      * (if mo = 0 ∧ qo = 0 then 1 / 2 else 1)
      = ∑ i ∈ range cnt, if m i = mo ∧ q i = qo then c i else 0 := by
  have hT : (0 : ℝ) < T := by
    have : 0 < T := by omega
    exact_mod_cast this
  have hn' : (0 : ℝ) < n := by exact_mod_cast hn
  rw [flat T n (fun a b => Real.cos (ang T n mo qo a b) * field T n cnt m q c s a b),
      swap T n cnt m q c s (fun a b => Real.cos (ang T n mo qo a b)), mul_assoc, sum_mul, mul_sum]
  apply sum_congr rfl; intro i hi
  have hi' := mem_range.mp hi
  rw [cos_cos T n K L hK hL hn mo qo (m i) (q i) hmo (hm i hi') hqo (hq i hi') h0o (h0 i hi'),
      cos_sin T n K L hK hL hn mo qo (m i) (q i) hmo (hm i hi') hqo (hq i hi')]
  split_ifs <;> (try field_simp) <;> (try ring)

/-- The same for a sine. -/
theorem identity_sin :
    2 / T / n * (∑ j ∈ range (T * n), Real.sin (ang T n mo qo ((j / n : ℕ)) ((j % n : ℕ))) * field T n cnt m q c s ((j / n : ℕ)) ((j % n : ℕ)))
      * (if mo = 0 ∧ qo = 0 then 1 / 2 else 1)
      = ∑ i ∈ range cnt, if m i = mo ∧ q i = qo ∧ ¬ (mo = 0 ∧ qo = 0) then s i else 0 := by
  have hT : (0 : ℝ) < T := by
    have : 0 < T := by omega
    exact_mod_cast this
  have hn' : (0 : ℝ) < n := by exact_mod_cast hn
  have hsc : ∀ i < cnt, ∑ a ∈ range T, ∑ b ∈ range n, Real.sin (ang T n mo qo a b) * Real.cos (ang T n (m i) (q i) a b) = 0 := by
    intro i hi'
    rw [← cos_sin T n K L hK hL hn (m i) (q i) mo qo (hm i hi') hmo (hq i hi') hqo]
    apply sum_congr rfl; intro a _
    apply sum_congr rfl; intro b _
    ring
  rw [flat T n (fun a b => Real.sin (ang T n mo qo a b) * field T n cnt m q c s a b),
      swap T n cnt m q c s (fun a b => Real.sin (ang T n mo qo a b)), mul_assoc, sum_mul, mul_sum]
  apply sum_congr rfl; intro i hi
  have hi' := mem_range.mp hi
  rw [sin_sin T n K L hK hL hn mo qo (m i) (q i) hmo (hm i hi') hqo (hq i hi') h0o (h0 i hi'), hsc i hi']
  by_cases he : m i = mo ∧ q i = qo
  · obtain ⟨e1, e2⟩ := he
    by_cases hz : mo = 0 ∧ qo = 0
    · simp [hz]
    · simp only [e1, e2, hz, and_self, if_true, if_false, not_false_eq_true]; field_simp; ring
  · have : ¬ (m i = mo ∧ q i = qo ∧ ¬ (mo = 0 ∧ qo = 0)) := fun h => he ⟨h.1, h.2.1⟩
    rw [if_neg he, if_neg this]; simp

omit hK hL hn hmo hqo h0o hm hq h0 in
theorem field_a (hT : 0 < T) (a b : ℤ) : field T n cnt m q c s (a + T) b = field T n cnt m q c s a b := by
  unfold field
  apply sum_congr rfl; intro i _
  rw [ang_shift_a T n hT, Real.cos_add_int_mul_two_pi, Real.sin_add_int_mul_two_pi]

omit hK hL hmo hqo h0o hm hq h0 in
theorem field_b (a b : ℤ) : field T n cnt m q c s a (b + n) = field T n cnt m q c s a b := by
  unfold field
  apply sum_congr rfl; intro i _
  rw [ang_shift_b T n hn, Real.cos_sub_int_mul_two_pi, Real.sin_sub_int_mul_two_pi]

end identity

section half
variable (M n : ℕ) (K L : ℤ) (hK : 2 * K < (2 * M : ℕ)) (hL : 2 * L < n) (hn : 0 < n) (mo qo : ℤ)
  (hmo : 0 ≤ mo ∧ mo ≤ K) (hqo : -L ≤ qo ∧ qo ≤ L) (h0o : mo = 0 → 0 ≤ qo)
  (cnt : ℕ) (m q : ℕ → ℤ) (c : ℕ → ℝ)
  (hm : ∀ i < cnt, 0 ≤ m i ∧ m i ≤ K) (hq : ∀ i < cnt, -L ≤ q i ∧ q i ≤ L) (h0 : ∀ i < cnt, m i = 0 → 0 ≤ q i)
include hK hL hn hmo hqo h0o hm hq h0

/-- `P` summed the way the symmetric case does it. -/
def half (M n : ℕ) (P : ℤ → ℤ → ℝ) : ℝ :=
  2 * ∑ j ∈ range ((M + 1) * n), P ((j / n : ℕ)) ((j % n : ℕ))
        - ∑ j ∈ range n, P ((j / n : ℕ)) ((j % n : ℕ))
        - (∑ j ∈ range ((M + 1) * n), P ((j / n : ℕ)) ((j % n : ℕ))
            - ∑ j ∈ range (M * n), P ((j / n : ℕ)) ((j % n : ℕ)))

/-- The symmetric quadrature of a cosine series against a cosine (C05). -/
theorem identity_half_cos :
    2 / (2 * M : ℕ) / n * half M n (fun a b => Real.cos (ang (2 * M) n mo qo a b) * field (2 * M) n cnt m q c (fun _ => 0) a b)
      * (if mo = 0 ∧ qo = 0 then 1 / 2 else 1)
      = ∑ i ∈ range cnt, if m i = mo ∧ q i = qo then c i else 0 := by
  have hT : 0 < 2 * M := by omega
  rw [← identity_cos (2 * M) n K L hK hL hn mo qo hmo hqo h0o cnt m q c (fun _ => 0) hm hq h0]
  have := half_grid M n (fun a b => Real.cos (ang (2 * M) n mo qo a b) * field (2 * M) n cnt m q c (fun _ => 0) a b)
    (by intro a b
        have : field (2 * M) n cnt m q c (fun _ => 0) (-a) (-b) = field (2 * M) n cnt m q c (fun _ => 0) a b := by
          unfold field; simp [ang_neg]
        simp only [this, ang_neg, Real.cos_neg])
    (by intro a b
        simp only [field_a (2 * M) n cnt m q c (fun _ => 0) hT, ang_shift_a (2 * M) n hT, Real.cos_add_int_mul_two_pi])
    (by intro a b
        simp only [field_b (2 * M) n hn cnt m q c (fun _ => 0), ang_shift_b (2 * M) n hn, Real.cos_sub_int_mul_two_pi])
  rw [this]
  rfl

/-- The symmetric quadrature of a sine series against a sine (C05). -/
theorem identity_half_sin :
    2 / (2 * M : ℕ) / n * half M n (fun a b => Real.sin (ang (2 * M) n mo qo a b) * field (2 * M) n cnt m q (fun _ => 0) c a b)
      * (if mo = 0 ∧ qo = 0 then 1 / 2 else 1)
      = ∑ i ∈ range cnt, if m i = mo ∧ q i = qo ∧ ¬ (mo = 0 ∧ qo = 0) then c i else 0 := by
  have hT : 0 < 2 * M := by omega
  rw [← identity_sin (2 * M) n K L hK hL hn mo qo hmo hqo h0o cnt m q (fun _ => 0) c hm hq h0]
  have := half_grid M n (fun a b => Real.sin (ang (2 * M) n mo qo a b) * field (2 * M) n cnt m q (fun _ => 0) c a b)
    (by intro a b
        have : field (2 * M) n cnt m q (fun _ => 0) c (-a) (-b) = -field (2 * M) n cnt m q (fun _ => 0) c a b := by
          unfold field; simp [ang_neg]
        simp only [this, ang_neg, Real.sin_neg]; ring)
    (by intro a b
        simp only [field_a (2 * M) n cnt m q (fun _ => 0) c hT, ang_shift_a (2 * M) n hT, Real.sin_add_int_mul_two_pi])
    (by intro a b
        simp only [field_b (2 * M) n hn cnt m q (fun _ => 0) c, ang_shift_b (2 * M) n hn, Real.sin_sub_int_mul_two_pi])
  rw [this]
  rfl

end half

end Quadrature
