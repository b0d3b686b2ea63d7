/-
A simulation as a state machine: `step s q` is the state after the query q and its result.
If every query, from every state satisfying the invariant, preserves it and returns the value
specified by the inputs alone, then so does every history of queries.
-/
theorem history_independent {σ ι : Type} {o : Type} (step : σ → ι → σ × o) (Inv : σ → Prop) (spec : ι → o)
    (h : ∀ s q, Inv s → Inv (step s q).1 ∧ (step s q).2 = spec q) (s0 : σ) (h0 : Inv s0) :
    ∀ (l : List ι) (q : ι), (step (l.foldl (fun s q => (step s q).1) s0) q).2 = spec q := by
  have key : ∀ (l : List ι) (s : σ), Inv s → Inv (l.foldl (fun s q => (step s q).1) s) := by
    intro l
    induction l with
    | nil => intro s hs; exact hs
    | cons a t ih => intro s hs; exact ih _ (h s a hs).1
  intro l q
  exact (h _ q (key l s0 h0)).2

/-- several simulations sharing layers: `mark l` is the solution whose modes the layer holds.
A solution m is usable when every layer of its stack carries m; computing another solution
removes the marks of the layers it touches before changing them. -/
theorem marks_protect {Layer M Modes : Type} (mark : Layer → Option M) (modes : Layer → Modes)
    (spec : M → Layer → Modes) (inv : ∀ l m, mark l = some m → modes l = spec m l)
    (touched : Layer → Prop) (mark' : Layer → Option M) (modes' : Layer → Modes)
    (keep : ∀ l, ¬ touched l → mark' l = mark l ∧ modes' l = modes l)
    (set : ∀ l m, touched l → mark' l = some m → modes' l = spec m l) :
    ∀ l m, mark' l = some m → modes' l = spec m l := by
  intro l m hm
  by_cases ht : touched l
  · exact set l m ht hm
  · rw [(keep l ht).2]
    exact inv l m ((keep l ht).1 ▸ hm)
