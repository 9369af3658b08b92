(* Exactness, in binary64 (subnormal numbers included, overflow excluded), of the algorithms to which the code is compared. *)
From Coq Require Import Reals ZArith Lia Lra.
From Flocq Require Import Core Mult_error Pff2Flocq.
Open Scope R_scope.
Definition choice : Z -> bool := fun n => negb (Z.even n).
Notation fexp := (FLT_exp (-1074) 53).
Notation format := (generic_format radix2 fexp).
Notation rnd := (round radix2 fexp (Znearest choice)).
Lemma prec53 : Prec_gt_0 53. Proof. unfold Prec_gt_0; lia. Qed.
#[local] Existing Instance prec53.
Lemma choice_sym : forall x, choice x = negb (choice (- (x + 1))).
Proof.
  intro x; unfold choice; rewrite Bool.negb_involutive, Z.even_opp, Z.even_add.
  destruct (Z.even x); reflexivity.
Qed.

Theorem two_sum : forall x y, format x -> format y ->
  let s := rnd (x + y) in let v := rnd (s - x) in
  s + rnd (rnd (x - rnd (s - v)) + rnd (y - v)) = x + y.
Proof. intros x y Fx Fy s v; apply TwoSum_correct; auto using choice_sym; lia. Qed.

Theorem two_difference : forall x y, format x -> format y ->
  let s := rnd (x - y) in let v := rnd (s - x) in
  s + rnd (rnd (x - rnd (s - v)) - rnd (y + v)) = x - y.
Proof.
  intros x y Fx Fy s v.
  assert (H := two_sum x (- y) Fx (generic_format_opp _ _ _ Fy)); cbv zeta in H.
  change (x + - y) with (x - y) in H; fold s in H; fold v in H.
  replace (- y - v) with (- (y + v)) in H by ring.
  rewrite (round_N_opp_sym (-1074) 53 choice choice_sym (y + v)) in H; exact H.
Qed.

(* w is -v. *)
Theorem point_difference : forall x y, format x -> format y ->
  let s := rnd (x - y) in let w := rnd (x - s) in
  s + rnd (rnd (x - rnd (s + w)) + rnd (w - y)) = x - y.
Proof.
  intros x y Fx Fy s w.
  assert (H := two_difference x y Fx Fy); cbv zeta in H; fold s in H.
  assert (W : rnd (s - x) = - w).
  { unfold w; rewrite <- (round_N_opp_sym (-1074) 53 choice choice_sym); f_equal; ring. }
  rewrite W in H.
  replace (s - - w) with (s + w) in H by ring.
  replace (y + - w) with (- (w - y)) in H by ring.
  rewrite (round_N_opp_sym (-1074) 53 choice choice_sym (w - y)) in H.
  replace (rnd (x - rnd (s + w)) - - rnd (w - y)) with (rnd (x - rnd (s + w)) + rnd (w - y)) in H by ring.
  exact H.
Qed.

Theorem quick_two_sum : forall x y, format x -> format y -> Rabs y <= Rabs x ->
  let s := rnd (x + y) in s + rnd (y - rnd (s - x)) = x + y.
Proof.
  intros x y Fx Fy H s.
  assert (E := Fast2Sum_correct (-1074) 53 choice eq_refl ltac:(lia) choice_sym x y Fx Fy H); fold s in E.
  replace (s - x) with (- (x - s)) by ring.
  rewrite (round_N_opp_sym (-1074) 53 choice choice_sym (x - s)).
  replace (y - - rnd (x - s)) with (y + rnd (x - s)) by ring; exact E.
Qed.

Theorem quick_two_difference : forall x y, format x -> format y -> Rabs y <= Rabs x ->
  let s := rnd (x - y) in s + rnd (rnd (x - s) - y) = x - y.
Proof.
  intros x y Fx Fy H s.
  assert (E := Fast2Sum_correct (-1074) 53 choice eq_refl ltac:(lia) choice_sym x (- y) Fx (generic_format_opp _ _ _ Fy)
                 ltac:(rewrite Rabs_Ropp; exact H)).
  change (x + - y) with (x - y) in E; fold s in E.
  replace (rnd (x - s) - y) with (- y + rnd (x - s)) by ring; exact E.
Qed.

Theorem fused_product : forall x y, format x -> format y ->
  (x * y = 0 \/ bpow radix2 (-1074 + 2 * 53 - 1) <= Rabs (x * y)) ->
  let z := rnd (x * y) in z + rnd (x * y - z) = x * y.
Proof.
  intros x y Fx Fy H z.
  assert (G : format (z - x * y)).
  { destruct H as [H | H].
    - unfold z; rewrite H; rewrite round_0 by auto with typeclass_instances; rewrite Rminus_0_r; apply generic_format_0.
    - exact (mult_error_FLT radix2 (-1074) 53 (Znearest choice) x y Fx Fy (fun _ => H)). }
  rewrite round_generic; auto with typeclass_instances; [ring | ].
  replace (x * y - z) with (- (z - x * y)) by ring; apply generic_format_opp; exact G.
Qed.

Definition high (x : R) := let p := rnd (x * (bpow radix2 27 + 1)) in rnd (rnd (x - p) + p).
Definition low (x : R) := rnd (x - high x).
Theorem veltkamp_dekker : forall x y, format x -> format y ->
  (x * y = 0 \/ bpow radix2 (-1074 + 2 * 53 - 1) <= Rabs (x * y)) ->
  let z := rnd (x * y) in
  z + rnd (rnd (rnd (rnd (rnd (high x * high y) - z) + rnd (high x * low y)) + rnd (low x * high y)) + rnd (low x * low y)) = x * y.
Proof.
  intros x y Fx Fy H z.
  assert (E := proj1 (Dekker radix2 (-1074) 53 choice ltac:(lia) ltac:(lia) x y Fx Fy (or_introl eq_refl))).
  change (53 - 53 / 2)%Z with 27%Z in E.
  replace (rnd (high x * high y) - z) with (- z + rnd (high x * high y)) by ring.
  symmetry; exact (E H).
Qed.
