; for C15 C20
; ---- MessagePack packets: positions in a message (sltok: what a slice holds, from its start) ----
(declare-fun sltok (Sl) Int)
; what can be read at a position, its value, and the position after it
(declare-fun mxmapok (Int) Bool)
(declare-fun mxmap (Int) Int)
(declare-fun mxaftmap (Int) Int)
(declare-fun mxkeyok (Int) Bool)
(declare-fun mxkey (Int) B)
(declare-fun mxaftkey (Int) Int)
(declare-fun mx8ok (Int) Bool)
(declare-fun mx8 (Int) Int)
(declare-fun mxaft8 (Int) Int)
(declare-fun mxstrok (Int) Bool)
(declare-fun mxstr (Int) B)
(declare-fun mxaftstr (Int) Int)
(declare-fun mxrawok (Int) Bool)
(declare-fun mxraw (Int) B)
(declare-fun mxaftraw (Int) Int)
(declare-fun mxnil (Int) Bool)
(declare-fun mxaftnil (Int) Int)
(declare-fun mx64ok (Int) Bool)
(declare-fun mx64 (Int) Int)
(declare-fun mxaft64 (Int) Int)
(declare-fun mxarrok (Int) Bool)
(declare-fun mxarr (Int) Int)
(declare-fun mxaftarr (Int) Int)
(declare-fun mxtype (Int) Int)
(assert (forall ((t Int)) (! (and (<= 0 (mxmap t)) (< (mxmap t) 4294967296)) :pattern ((mxmap t)))))
; which field a key names: 0 type, 1 nsp, 2 data, 3 id, 4 none of them
(declare-fun mfk (Int) Int)
; a field is well-formed; the position after it
(define-fun mfok ((t Int)) Bool (and (mxkeyok t) (ite (= (mfk t) 0) (mx8ok (mxaftkey t)) (ite (= (mfk t) 1) (mxstrok (mxaftkey t)) (ite (= (mfk t) 3) (or (mxnil (mxaftkey t)) (mx64ok (mxaftkey t))) (mxrawok (mxaftkey t)))))))
(define-fun mfend ((t Int)) Int (ite (= (mfk t) 0) (mxaft8 (mxaftkey t)) (ite (= (mfk t) 1) (mxaftstr (mxaftkey t)) (ite (= (mfk t) 3) (ite (mxnil (mxaftkey t)) (mxaftnil (mxaftkey t)) (mxaft64 (mxaftkey t))) (mxaftraw (mxaftkey t))))))
; the position after k fields
(declare-fun mpos (Int Int) Int)
(assert (forall ((t Int)) (! (= (mpos t 0) t) :pattern ((mpos t 0)))))
(assert (forall ((t Int) (k Int)) (! (=> (> k 0) (= (mpos t k) (mfend (mpos t (- k 1))))) :pattern ((mpos t k) (tick k)))))
; the first k fields are well-formed
(declare-fun mall (Int Int) Bool)
(assert (forall ((t Int)) (! (mall t 0) :pattern ((mall t 0)))))
(assert (forall ((t Int) (k Int)) (! (=> (> k 0) (= (mall t k) (and (mall t (- k 1)) (mfok (mpos t (- k 1)))))) :pattern ((mall t k) (tick k)))))
; the last of the first k fields that is of a kind (-1: none)
(declare-fun mlast (Int Int Int) Int)
(assert (forall ((t Int) (q Int)) (! (= (mlast t 0 q) (- 1)) :pattern ((mlast t 0 q)))))
(assert (forall ((t Int) (k Int) (q Int)) (! (=> (> k 0) (= (mlast t k q) (ite (= (mfk (mpos t (- k 1))) q) (- k 1) (mlast t (- k 1) q)))) :pattern ((mlast t k q) (tick k)))))
; where the value of that field is
(define-fun mfval ((t Int) (k Int) (q Int)) Int (mxaftkey (mpos t (mlast t k q))))
; ---- writing ----
(declare-fun me8 (Int) B)
(declare-fun mestr (B) B)
(declare-fun mearr (Int) B)
(declare-fun me64 (Int) B)
; ---- JSON texts of packets: accepted, has a field, its value ----
(declare-fun jpok (B) Bool)
(declare-fun jhty (B) Bool)
(declare-fun jpty (B) Int)
(declare-fun jhns (B) Bool)
(declare-fun jpns (B) B)
(declare-fun jhda (B) Bool)
(declare-fun jpda (B) Int)
(declare-fun jhid (B) Bool)
(declare-fun jpidnil (B) Bool)
(declare-fun jpid (B) Int)
