; for C12 C13 C14 C15 C16 C17 C18 C19 C20
; ---- reflection ----
(declare-fun rvof (Int) Int)
(declare-fun rvi (Int) Int)
(declare-fun rvt (Int) Int)
(declare-fun rvariadic (Int) Bool)
(declare-fun vkind (Int) Int)
(declare-fun tkind (Int) Int)
(declare-fun telem (Int) Int)
(declare-fun rnumin (Int) Int)
(declare-fun rtin (Int Int) Int)
; the type a value made by reflect.New points to; the pointer to an addressable value
(declare-fun rnewof (Int) Int)
(declare-fun raddr (Int) Int)
; parameters: isconn a connection, isbin a binary one (its pointer unmarshals binary data), else decoded from the text
(declare-fun isconn (Int) Bool)
(declare-fun isbin (Int) Bool)
(define-fun pbase ((t Int)) Int (ite (= (tkind t) 22) (telem t) t))
(define-fun parbin ((t Int)) Bool (and (not (isconn t)) (isbin (pbase t))))
(define-fun partext ((t Int)) Bool (and (not (isconn t)) (not (isbin (pbase t)))))
; the number of binary and text parameters among the first i
(declare-fun bcnt (B Int) Int)
(declare-fun tcnt (B Int) Int)
(assert (forall ((s B)) (! (= (bcnt s 0) 0) :pattern ((bcnt s 0)))))
(assert (forall ((s B)) (! (= (tcnt s 0) 0) :pattern ((tcnt s 0)))))
(assert (forall ((s B) (i Int)) (! (=> (> i 0) (= (bcnt s i) (+ (bcnt s (- i 1)) (ite (parbin (bidx s (- i 1))) 1 0)))) :pattern ((bcnt s i) (tick i)))))
(assert (forall ((s B) (i Int)) (! (=> (> i 0) (= (tcnt s i) (+ (tcnt s (- i 1)) (ite (partext (bidx s (- i 1))) 1 0)))) :pattern ((tcnt s i) (tick i)))))
; the pointer that reaches a parameter's value
(define-fun pholder ((t Int) (v Int)) Int (ite (= (tkind t) 22) v (raddr v)))
; the number of decoded parameters among the first i
(declare-fun ncnt (B Int) Int)
(assert (forall ((s B)) (! (= (ncnt s 0) 0) :pattern ((ncnt s 0)))))
(assert (forall ((s B) (i Int)) (! (=> (> i 0) (= (ncnt s i) (+ (ncnt s (- i 1)) (ite (isconn (bidx s (- i 1))) 0 1)))) :pattern ((ncnt s i) (tick i)))))
; MessagePack: what an array header says and what follows it
(declare-fun mpafter (Sl) Sl)
(declare-fun mpsize (Sl) Int)
(declare-fun mpafterstr (Sl) Sl)
(declare-fun mpstr (Sl) B)
(declare-fun mpkey (Sl) Sl)
(declare-fun mpkeyrest (Sl) Sl)
(declare-fun mpmapsize (Sl) Int)
(declare-fun mpaftermap (Sl) Sl)
(declare-fun mpskip (Sl) Sl)
(declare-fun mpwhole (Sl) Bool)
; reflection: addressable values, lengths, assignable and convertible types
(declare-fun rsettable (Int) Bool)
(declare-fun rlen (Int) Int)
(declare-fun rassign (Int Int) Bool)
(declare-fun rconv (Int Int) Bool)
(declare-fun tmapkey (Int) Int)
; a one-element sequence or nothing
(define-fun bopt ((c Bool) (v Int)) B (ite c (bunit v) bempty))
; C16: the number of function arguments among the first i of an event's arguments
(define-fun isfn ((x Int)) Bool (and (not (= x 0)) (= (tkind (rvt (rvof x))) 19)))
(declare-fun dcnt (B Int) Int)
(assert (forall ((s B)) (! (= (dcnt s 0) 0) :pattern ((dcnt s 0)))))
(assert (forall ((s B) (i Int)) (! (=> (> i 0) (= (dcnt s i) (+ (dcnt s (- i 1)) (ite (isfn (bidx s (- i 1))) 0 1)))) :pattern ((dcnt s i) (tick i)))))
; the channel a decoder delivers its packets on
(declare-fun decchan (Int) Int)
(declare-fun nspknown (Int B) Bool)
(declare-fun nspof (Int B) Int)
; C13: the number of binary arguments among the first i
(declare-fun isbm (Int) Bool)
(declare-fun bmcnt (B Int) Int)
(assert (forall ((s B)) (! (= (bmcnt s 0) 0) :pattern ((bmcnt s 0)))))
(assert (forall ((s B) (i Int)) (! (=> (> i 0) (= (bmcnt s i) (+ (bmcnt s (- i 1)) (ite (isbm (bidx s (- i 1))) 1 0)))) :pattern ((bmcnt s i) (tick i)))))
(define-fun bif ((c Bool) (a B) (b B)) B (ite c a b))
; a packet with attachments goes as the binary variant of its type
(define-fun bintype ((t Int) (n Int)) Int (ite (and (> n 0) (= t 2)) 5 (ite (and (> n 0) (= t 3)) 6 t)))
; the writer behind a json encoder
(declare-fun jwof (Int) Int)
