; ---- time ----
; tns(t): the instant of a time.Time in nanoseconds; tzero(t): it is the zero time
(declare-fun tns (Int) Int)
(declare-fun tzero (Int) Bool)
