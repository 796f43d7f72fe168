; what a received packet contained when it arrived
(declare-fun rtype (Int) Int)
(declare-fun rmsg (Int) Int)
(declare-fun rdat (Int) B)
; the fields of the handshake JSON
(declare-fun jsid (B) B)
(declare-fun jinterval (B) Int)
(declare-fun jtimeout (B) Int)
