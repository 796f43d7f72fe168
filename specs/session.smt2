; ---- sessions ----
; epoch: the instant of the Unix epoch
(declare-const epoch Int)
(declare-fun unb32 (B) B)
; originok(f, r): the origin check f lets request r pass
(declare-fun originok (Int Int) Bool)
; the origin checker c lets request r pass
(declare-fun originallowed (Int Int) Bool)
