import Mathlib.Analysis.SpecialFunctions.Trigonometric.Bounds
import Mathlib.Analysis.SpecialFunctions.Trigonometric.Inverse
import Mathlib.Geometry.Euclidean.Angle.Unoriented.Basic
import Mathlib.Geometry.Euclidean.Angle.Unoriented.TriangleInequality
import Mathlib.Tactic.Linarith
import Mathlib.Tactic.NormNum

/-! The geometry that C03, C05, C16 and C17 rest on. The directions are those of declination d and hour angle h:
(cos d cos h, cos d sin h, sin d); the scalar product of two of them is sin d sin d' + cos d cos d' cos (h - h'). -/

open Real

noncomputable section
namespace Sun

/-- scalar product of the directions (d, h) and (d', h') -/
def dot (d h d' h' : ℝ) : ℝ := sin d * sin d' + cos d * cos d' * cos (h - h')

/-- the angle between them -/
def sep (d h d' h' : ℝ) : ℝ := arccos (dot d h d' h')

theorem dot_is (d h d' h' : ℝ) : dot d h d' h' =
    (cos d * cos h) * (cos d' * cos h') + (cos d * sin h) * (cos d' * sin h') + sin d * sin d' := by
  unfold dot; rw [cos_sub]; ring

theorem cos_mul_cos_le_one (a b : ℝ) : cos a * cos b ≤ 1 := by
  nlinarith [cos_le_one a, cos_le_one b, neg_one_le_cos a, neg_one_le_cos b]

/-- an angle is at most τ when its cosine is at least that of τ -/
theorem arccos_le_of_cos_le {c τ : ℝ} (h0 : 0 ≤ τ) (hpi : τ ≤ π) (h : cos τ ≤ c) : arccos c ≤ τ := by
  have := arccos_le_arccos h
  rwa [arccos_cos h0 hpi] at this

/-- C03: (D - D')² + sin² (H - H') ≤ (0.9999 τ)², with the cosine of H - H' positive, bounds the separation by τ -/
theorem separation {d h d' h' τ : ℝ} (h0 : 0 ≤ τ) (hτ : τ ≤ 1 / 100) (hc : 0 ≤ cos (h - h'))
    (H : (d - d') ^ 2 + sin (h - h') ^ 2 ≤ (9999 / 10000 * τ) ^ 2) : sep d h d' h' ≤ τ := by
  have hτ2 : τ ^ 2 ≤ 1 / 10000 := by nlinarith
  apply arccos_le_of_cos_le h0 (by linarith [two_le_pi])
  have e : dot d h d' h' = cos (d - d') - cos d * cos d' * (1 - cos (h - h')) := by
    unfold dot; rw [cos_sub d d']; ring
  have hd : 1 - (d - d') ^ 2 / 2 ≤ cos (d - d') := one_sub_sq_div_two_le_cos
  set x := h - h'
  have hx1 : cos x ≤ 1 := cos_le_one x
  have hs : sin x ^ 2 = (1 - cos x) * (1 + cos x) := by nlinarith [sin_sq_add_cos_sq x]
  -- the cosine is close to 1
  have hsm : sin x ^ 2 ≤ 1 / 10000 := by nlinarith [sq_nonneg (d - d')]
  have hbig : 9999 / 10000 ≤ cos x := by nlinarith
  have h1 : (1 - cos x) * (19999 / 10000) ≤ sin x ^ 2 := by nlinarith
  have hp : cos d * cos d' * (1 - cos x) ≤ 1 - cos x := by
    nlinarith [cos_mul_cos_le_one d d']
  have hcb := cos_bound (x := τ) (by rw [abs_of_nonneg h0]; linarith)
  have ht : cos τ ≤ 1 - τ ^ 2 / 2 + τ ^ 4 * (5 / 96) := by
    have := (abs_le.mp hcb).2
    rw [abs_of_nonneg h0] at this
    linarith
  have h4 : τ ^ 4 ≤ τ ^ 2 * (1 / 10000) := by nlinarith [sq_nonneg τ]
  rw [e]
  nlinarith [sq_nonneg (d - d'), sq_nonneg τ]

/-- C05, C16: two directions with the same declination, the hour angles differing by x (modulo a turn) with
|sin x| ≤ sin τ and cos x positive, are at most τ apart -/
theorem same_declination {d h h' τ : ℝ} (h0 : 0 ≤ τ) (hτ : τ ≤ π / 2) (hs : |sin (h - h')| ≤ sin τ)
    (hc : 0 ≤ cos (h - h')) : sep d h d h' ≤ τ := by
  apply arccos_le_of_cos_le h0 (by linarith [pi_pos])
  have ht : 0 ≤ cos τ := cos_nonneg_of_mem_Icc ⟨by linarith [pi_pos], hτ⟩
  have h2 : sin (h - h') ^ 2 ≤ sin τ ^ 2 := by
    rw [← sq_abs (sin (h - h'))]
    exact pow_le_pow_left₀ (abs_nonneg _) hs 2
  have h3 : cos τ ≤ cos (h - h') := by
    apply le_of_sq_le_sq' hc ht
    nlinarith [sin_sq_add_cos_sq τ, sin_sq_add_cos_sq (h - h')]
  unfold dot
  nlinarith [sin_sq_add_cos_sq d, cos_le_one (h - h'), sq_nonneg (sin d), sq_nonneg (cos d)]
where
  le_of_sq_le_sq' {a b : ℝ} (hb : 0 ≤ b) (_ : 0 ≤ a) (h : a ^ 2 ≤ b ^ 2) : a ≤ b := by
    exact le_of_abs_le (abs_le_of_sq_le_sq h hb)

/-- a change of declination alone moves the direction by that much -/
theorem same_hour {d d' h : ℝ} (hd : |d - d'| ≤ π) : sep d h d' h ≤ |d - d'| := by
  apply arccos_le_of_cos_le (abs_nonneg _) hd
  unfold dot
  rw [cos_abs, cos_sub]; simp [add_comm]

/-- the change from declination and hour angle to the horizontal frame of latitude p (up, south, west) is a rotation:
it keeps scalar products -/
theorem rotation (p d h d' h' : ℝ) :
    (sin p * sin d + cos p * cos d * cos h) * (sin p * sin d' + cos p * cos d' * cos h')
    + (sin p * cos d * cos h - cos p * sin d) * (sin p * cos d' * cos h' - cos p * sin d')
    + (cos d * sin h) * (cos d' * sin h') = dot d h d' h' := by
  rw [dot_is]
  have e : sin p ^ 2 = 1 - cos p ^ 2 := by linarith [sin_sq_add_cos_sq p]
  ring_nf
  rw [e]
  ring

variable {V : Type*} [NormedAddCommGroup V] [InnerProductSpace ℝ V]
open InnerProductGeometry

/-- C16: the cosines of incidence of two directions u, v on a surface of normal n differ by at most the angle between them -/
theorem incidence {n u v : V} (hn : ‖n‖ = 1) (hu : ‖u‖ = 1) (hv : ‖v‖ = 1) :
    |inner ℝ n u - inner ℝ n v| ≤ angle u v := by
  rw [← inner_sub_right]
  have h1 : |inner ℝ n (u - v)| ≤ ‖u - v‖ := by
    have := abs_real_inner_le_norm n (u - v)
    rwa [hn, one_mul] at this
  have h2 : ‖u - v‖ ^ 2 = 2 - 2 * cos (angle u v) := by
    rw [norm_sub_sq_real, hu, hv, cos_angle, hu, hv]; ring
  have h3 : 1 - angle u v ^ 2 / 2 ≤ cos (angle u v) := one_sub_sq_div_two_le_cos
  have h4 : ‖u - v‖ ≤ angle u v :=
    le_of_abs_le (abs_le_of_sq_le_sq (by nlinarith) (angle_nonneg u v))
  linarith

/-- the bounds of several displacements add up -/
theorem displacements (u v w : V) : angle u w ≤ angle u v + angle v w := angle_le_angle_add_angle u v w

/-- C17: converting to true solar time and back -/
theorem round_trip (e : ℝ → ℝ) (lon T : ℝ) :
    let tst := T + (e T + 4 * lon); (tst - (e tst + 4 * lon)) - T = e T - e tst := by
  intro tst; ring

/-- C17: true solar time is at most 12.4 h from UTC -/
theorem shift_bound {e lon : ℝ} (he : |e| ≤ 20) (hl : |lon| ≤ 180) : |e + 4 * lon| ≤ 124 / 10 * 60 := by
  have := abs_le.mp he; have := abs_le.mp hl
  rw [abs_le]; constructor <;> linarith

#print axioms separation
#print axioms same_declination
#print axioms same_hour
#print axioms rotation
#print axioms incidence
#print axioms displacements
#print axioms round_trip
#print axioms shift_bound

end Sun
