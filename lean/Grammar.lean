/-
Machine-checked lemmas about the expression grammar that the contracts of the parser (C09, C10) and of the printer (C11) share.

A parse tree is well grouped (`G`) if every binary operator's operands fit its precedence and associativity.
* `unambiguous`: a token list is the yield of at most one well-grouped tree.
* `scan_yield`: the left-to-right scan of the conversion to post order (operand expected / number of open parentheses) accepts every yield:
  none of the conditions under which the code throws (operator, `)` or end where an operand is expected, `)` without `(`, unclosed `(`, two operands side by side) occurs.
* `scan_sound`: a list with a parse tree never makes the scan fail, so a rejected list has no parse tree.
-/
namespace VF

variable {A O : Type}

inductive Tok (A O : Type) where
  | atom (a : A) | un (o : O) | bin (o : O) | lp | rp

inductive P (A O : Type) where
  | atom (a : A) | un (o : O) (p : P A O) | bin (o : O) (l r : P A O) | par (p : P A O)

/-- the operator table: rank and associativity; operators of one rank associate to the same side -/
structure Table (O : Type) where
  rank : O → Nat
  right : O → Bool
  same : ∀ a b, rank a = rank b → right a = right b

def isPrim : P A O → Prop
  | .bin .. => False
  | _ => True

def okl (T : Table O) (o : O) : P A O → Prop
  | .bin q _ _ => if T.right o then T.rank o < T.rank q else T.rank o ≤ T.rank q
  | _ => True
def okr (T : Table O) (o : O) : P A O → Prop
  | .bin q _ _ => if T.right o then T.rank o ≤ T.rank q else T.rank o < T.rank q
  | _ => True

def G (T : Table O) : P A O → Prop
  | .atom _ => True
  | .un _ p => G T p ∧ isPrim p
  | .bin o l r => G T l ∧ G T r ∧ okl T o l ∧ okr T o r
  | .par p => G T p

/-- the tokens of a tree, followed by k -/
def Y : P A O → List (Tok A O) → List (Tok A O)
  | .atom a, k => .atom a :: k
  | .un o p, k => .un o :: Y p k
  | .bin o l r, k => Y l (.bin o :: Y r k)
  | .par p, k => .lp :: Y p (.rp :: k)

def size : P A O → Nat
  | .atom _ => 1
  | .un _ p => size p + 1
  | .bin _ l r => size l + size r + 1
  | .par p => size p + 1

/-! ### the chain of operands and operators on the top level -/
def hd : P A O → P A O
  | .bin _ l _ => hd l
  | p => p
def tl : P A O → List (O × P A O)
  | .bin o l r => tl l ++ (o, hd r) :: tl r
  | _ => []

/-- op binds tighter than the operator o to its left -/
def tighter (T : Table O) (o op : O) : Bool := decide (T.rank o < T.rank op) || (decide (T.rank o = T.rank op) && T.right o)

def ins (T : Table O) : P A O → O → P A O → P A O
  | .bin o l r, op, p => if tighter T o op then .bin o l (ins T r op p) else .bin op (.bin o l r) p
  | q, op, p => .bin op q p

def build (T : Table O) (t : P A O) (L : List (O × P A O)) : P A O := L.foldl (fun t x => ins T t x.1 x.2) t

theorem rank_tl (T : Table O) (m : Nat) : ∀ t : P A O, G T t → (∀ o l r, t = .bin o l r → m ≤ T.rank o) → ∀ x ∈ tl t, m ≤ T.rank x.1 := by
  intro t
  induction t with
  | atom a => intro _ _ x hx; simp [tl] at hx
  | un o p _ => intro _ _ x hx; simp [tl] at hx
  | par p _ => intro _ _ x hx; simp [tl] at hx
  | bin o l r ihl ihr =>
    intro hg hm x hx
    have ho := hm o l r rfl
    obtain ⟨gl, gr, hl, hr⟩ := hg
    simp only [tl, List.mem_append, List.mem_cons] at hx
    rcases hx with h | h | h
    · refine ihl gl ?_ x h
      intro q a b e; subst e; simp only [okl] at hl; split at hl <;> omega
    · subst h; exact ho
    · refine ihr gr ?_ x h
      intro q a b e; subst e; simp only [okr] at hr; split at hr <;> omega

theorem build_right (T : Table O) (o : O) (l : P A O) : ∀ (L : List (O × P A O)) (x : P A O), (∀ y ∈ L, tighter T o y.1 = true) →
    build T (.bin o l x) L = .bin o l (build T x L) := by
  intro L
  induction L with
  | nil => intro x _; rfl
  | cons y L ih =>
    intro x h
    have hy : tighter T o y.1 = true := h y (by simp)
    simp only [build, List.foldl_cons, ins, hy, if_true]
    exact ih _ (fun z hz => h z (by simp [hz]))

theorem tighter_tl (T : Table O) (o : O) (r : P A O) (gr : G T r) (h : okr T o r) : ∀ y ∈ tl r, tighter T o y.1 = true := by
  intro y hy
  cases r with
  | atom a => simp [tl] at hy
  | un q p => simp [tl] at hy
  | par p => simp [tl] at hy
  | bin q a b =>
    have hm := rank_tl T (T.rank q) (.bin q a b) gr (by intro o' l' r' e; cases e; exact Nat.le_refl _) y hy
    simp only [okr] at h
    simp only [tighter, Bool.or_eq_true, Bool.and_eq_true, decide_eq_true_eq]
    by_cases hr : T.right o = true
    · simp only [hr, if_true] at h
      by_cases e : T.rank o = T.rank y.1
      · exact Or.inr ⟨e, hr⟩
      · left; omega
    · simp only [hr] at h
      left; simp at h; omega

theorem ins_left (T : Table O) (o : O) (l p : P A O) (h : okl T o l) : ins T l o p = .bin o l p := by
  cases l with
  | atom a => rfl
  | un q x => rfl
  | par x => rfl
  | bin q a b =>
    have : tighter T q o = false := by
      simp only [okl] at h
      by_cases hr : T.right o = true
      · simp only [hr, if_true] at h
        simp only [tighter, Bool.or_eq_false_iff, Bool.and_eq_false_iff, decide_eq_false_iff_not]
        exact ⟨by omega, Or.inl (by omega)⟩
      · simp only [hr] at h
        simp at h
        simp only [tighter, Bool.or_eq_false_iff, Bool.and_eq_false_iff, decide_eq_false_iff_not]
        refine ⟨by omega, ?_⟩
        by_cases e : T.rank q = T.rank o
        · right; rw [T.same q o e]; simpa using hr
        · left; exact e
    simp [ins, this]

theorem build_chain (T : Table O) : ∀ t : P A O, G T t → build T (hd t) (tl t) = t := by
  intro t
  induction t with
  | atom a => intro _; rfl
  | un o p _ => intro _; rfl
  | par p _ => intro _; rfl
  | bin o l r ihl ihr =>
    intro hg
    obtain ⟨gl, gr, hl, hr⟩ := hg
    have e1 : build T (hd (.bin o l r)) (tl (.bin o l r)) = build T (ins T (build T (hd l) (tl l)) o (hd r)) (tl r) := by
      simp [build, hd, tl, List.foldl_append]
    rw [e1, ihl gl, ins_left T o l _ hl, build_right T o l _ _ (tighter_tl T o r gr hr), ihr gr]

/-- the tokens of a chain -/
def YC : List (O × P A O) → List (Tok A O) → List (Tok A O)
  | [], k => k
  | (o, p) :: L, k => .bin o :: Y p (YC L k)

theorem YC_append : ∀ (L M : List (O × P A O)) (k : List (Tok A O)), YC (L ++ M) k = YC L (YC M k) := by
  intro L
  induction L with
  | nil => intro M k; rfl
  | cons x L ih => intro M k; obtain ⟨o, p⟩ := x; simp [YC, ih]

theorem Y_chain : ∀ (t : P A O) (k : List (Tok A O)), Y t k = Y (hd t) (YC (tl t) k) := by
  intro t
  induction t with
  | atom a => intro k; rfl
  | un o p _ => intro k; rfl
  | par p _ => intro k; rfl
  | bin o l r ihl ihr =>
    intro k
    simp only [Y, hd, tl, YC_append, YC]
    rw [ihl, ihr]

theorem prim_hd : ∀ t : P A O, isPrim (hd t) := by
  intro t; induction t with
  | atom a => trivial
  | un o p _ => trivial
  | par p _ => trivial
  | bin o l r ihl _ => exact ihl
theorem prim_tl : ∀ (t : P A O), ∀ x ∈ tl t, isPrim x.2 := by
  intro t; induction t with
  | atom a => intro x h; simp [tl] at h
  | un o p _ => intro x h; simp [tl] at h
  | par p _ => intro x h; simp [tl] at h
  | bin o l r ihl ihr =>
    intro x h
    simp only [tl, List.mem_append, List.mem_cons] at h
    rcases h with h | h | h
    · exact ihl x h
    · subst h; exact prim_hd r
    · exact ihr x h
theorem size_hd : ∀ t : P A O, size (hd t) ≤ size t := by
  intro t; induction t with
  | atom a => exact Nat.le_refl _
  | un o p _ => exact Nat.le_refl _
  | par p _ => exact Nat.le_refl _
  | bin o l r ihl _ => simp only [hd, size]; omega
theorem size_tl : ∀ (t : P A O), ∀ x ∈ tl t, size x.2 ≤ size t := by
  intro t; induction t with
  | atom a => intro x h; simp [tl] at h
  | un o p _ => intro x h; simp [tl] at h
  | par p _ => intro x h; simp [tl] at h
  | bin o l r ihl ihr =>
    intro x h
    simp only [tl, List.mem_append, List.mem_cons] at h
    simp only [size]
    rcases h with h | h | h
    · have := ihl x h; omega
    · subst h; have := size_hd r; simp only; omega
    · have := ihr x h; omega
theorem G_hd (T : Table O) : ∀ t : P A O, G T t → G T (hd t) := by
  intro t; induction t with
  | atom a => intro h; exact h
  | un o p _ => intro h; exact h
  | par p _ => intro h; exact h
  | bin o l r ihl _ => intro h; exact ihl h.1
theorem G_tl (T : Table O) : ∀ (t : P A O), G T t → ∀ x ∈ tl t, G T x.2 := by
  intro t; induction t with
  | atom a => intro _ x h; simp [tl] at h
  | un o p _ => intro _ x h; simp [tl] at h
  | par p _ => intro _ x h; simp [tl] at h
  | bin o l r ihl ihr =>
    intro hg x h
    simp only [tl, List.mem_append, List.mem_cons] at h
    rcases h with h | h | h
    · exact ihl hg.1 x h
    · subst h; exact G_hd T r hg.2.1
    · exact ihr hg.2.1 x h

def noBin : List (Tok A O) → Prop
  | .bin _ :: _ => False
  | _ => True

/-- chains of operands that are determined by their tokens are determined by their tokens -/
theorem YC_inj (T : Table O) (n : Nat)
    (hA : ∀ (p q : P A O) (k k' : List (Tok A O)), isPrim p → isPrim q → G T p → G T q → size p ≤ n → Y p k = Y q k' → p = q ∧ k = k') :
    ∀ (L M : List (O × P A O)) (k k' : List (Tok A O)), noBin k → noBin k' → (∀ x ∈ L, isPrim x.2 ∧ G T x.2 ∧ size x.2 ≤ n) →
    (∀ x ∈ M, isPrim x.2 ∧ G T x.2) → YC L k = YC M k' → L = M ∧ k = k' := by
  intro L
  induction L with
  | nil =>
    intro M k k' hk _ _ _ h
    cases M with
    | nil => exact ⟨rfl, h⟩
    | cons y M => obtain ⟨o, p⟩ := y; simp only [YC] at h; rw [h] at hk; exact hk.elim
  | cons x L ih =>
    intro M k k' hk hk' hL hM h
    obtain ⟨o, p⟩ := x
    cases M with
    | nil => simp only [YC] at h; rw [← h] at hk'; exact hk'.elim
    | cons y M =>
      obtain ⟨o', p'⟩ := y
      simp only [YC, List.cons.injEq, Tok.bin.injEq] at h
      obtain ⟨h1, h2⟩ := h
      have a := hL (o, p) (by simp)
      have b := hM (o', p') (by simp)
      obtain ⟨e, f⟩ := hA p p' _ _ a.1 b.1 a.2.1 b.2 a.2.2 h2
      obtain ⟨e2, f2⟩ := ih M k k' hk hk' (fun z hz => hL z (by simp [hz])) (fun z hz => hM z (by simp [hz])) f
      subst h1; subst e; subst e2
      exact ⟨rfl, f2⟩

theorem prefix_code (T : Table O) : ∀ (n : Nat) (p q : P A O) (k k' : List (Tok A O)), G T p → G T q → size p ≤ n →
    ((isPrim p → isPrim q → Y p k = Y q k' → p = q ∧ k = k') ∧ (noBin k → noBin k' → Y p k = Y q k' → p = q ∧ k = k')) := by
  intro n
  induction n with
  | zero => intro p q k k' _ _ h; cases p <;> simp [size] at h
  | succ n ih =>
    have hA : ∀ (p q : P A O) (k k' : List (Tok A O)), isPrim p → isPrim q → G T p → G T q → size p ≤ n + 1 → Y p k = Y q k' → p = q ∧ k = k' := by
      intro p q k k' pp pq gp gq hs h
      cases p with
      | bin o l r => exact pp.elim
      | atom a =>
        cases q with
        | bin o l r => exact pq.elim
        | atom b => simp only [Y, List.cons.injEq, Tok.atom.injEq] at h; exact ⟨by rw [h.1], h.2⟩
        | un o x => simp [Y] at h
        | par x => simp [Y] at h
      | un o x =>
        cases q with
        | bin o l r => exact pq.elim
        | atom b => simp [Y] at h
        | par y => simp [Y] at h
        | un o' y =>
          simp only [Y, List.cons.injEq, Tok.un.injEq] at h
          obtain ⟨h1, h2⟩ := h
          obtain ⟨e, f⟩ := (ih x y k k' gp.1 gq.1 (by simp only [size] at hs; omega)).1 gp.2 gq.2 h2
          subst h1; subst e; exact ⟨rfl, f⟩
      | par x =>
        cases q with
        | bin o l r => exact pq.elim
        | atom b => simp [Y] at h
        | un o y => simp [Y] at h
        | par y =>
          simp only [Y, List.cons.injEq, true_and] at h
          obtain ⟨e, f⟩ := (ih x y (.rp :: k) (.rp :: k') gp gq (by simp only [size] at hs; omega)).2 trivial trivial h
          subst e; simp only [List.cons.injEq, true_and] at f; exact ⟨rfl, f⟩
    intro p q k k' gp gq hs
    refine ⟨fun pp pq h => hA p q k k' pp pq gp gq hs h, ?_⟩
    intro hk hk' h
    rw [Y_chain p, Y_chain q] at h
    have s1 : size (hd p) ≤ n + 1 := Nat.le_trans (size_hd p) hs
    obtain ⟨e, f⟩ := hA _ _ _ _ (prim_hd p) (prim_hd q) (G_hd T p gp) (G_hd T q gq) s1 h
    obtain ⟨e2, f2⟩ := YC_inj T (n + 1) hA (tl p) (tl q) k k' hk hk'
      (fun x hx => ⟨prim_tl p x hx, G_tl T p gp x hx, Nat.le_trans (size_tl p x hx) hs⟩) (fun x hx => ⟨prim_tl q x hx, G_tl T q gq x hx⟩) f
    refine ⟨?_, f2⟩
    rw [← build_chain T p gp, ← build_chain T q gq, e, e2]

/-- a token list has at most one well-grouped parse tree -/
theorem unambiguous (T : Table O) (p q : P A O) (gp : G T p) (gq : G T q) (h : Y p [] = Y q []) : p = q :=
  ((prefix_code T (size p) p q [] [] gp gq (Nat.le_refl _)).2 trivial trivial h).1

/-! ### the scan of the code -/
/-- state: operand expected, open parentheses; none: rejected -/
def scan : Bool → Nat → List (Tok A O) → Option (Bool × Nat)
  | e, d, [] => some (e, d)
  | true, d, .atom _ :: k => scan false d k
  | true, d, .un _ :: k => scan true d k
  | true, d, .lp :: k => scan true (d + 1) k
  | true, _, .bin _ :: _ => none
  | true, _, .rp :: _ => none
  | false, d, .bin _ :: k => scan true d k
  | false, d, .rp :: k => match d with | 0 => none | d + 1 => scan false d k
  | false, _, .atom _ :: _ => none
  | false, _, .un _ :: _ => none
  | false, _, .lp :: _ => none

theorem scan_yield : ∀ (p : P A O) (d : Nat) (k : List (Tok A O)), scan true d (Y p k) = scan false d k := by
  intro p
  induction p with
  | atom a => intro d k; simp [Y, scan]
  | un o p ih => intro d k; simp [Y, scan, ih]
  | bin o l r ihl ihr => intro d k; simp [Y, scan, ihl, ihr]
  | par p ih => intro d k; simp [Y, scan, ih]

/-- a list of tokens with a parse tree is accepted by the scan -/
theorem scan_sound (p : P A O) : scan true 0 (Y p []) = some (false, 0) := by rw [scan_yield]; simp [scan]

end VF
#print axioms VF.unambiguous
#print axioms VF.scan_yield
#print axioms VF.scan_sound
