; for C14
; ---- the text of a packet: type digit, attachment count and dash, namespace and comma, id, data ----
(define-fun isdg ((c Int)) Bool (and (<= 48 c) (<= c 57)))
; first position from i on that holds c (the length if there is none)
(declare-fun fnd (B Int Int) Int)
(assert (forall ((s B) (i Int) (c Int)) (! (and (<= i (fnd s i c)) (<= (fnd s i c) (ite (<= i (blen s)) (blen s) i)) (=> (< (fnd s i c) (blen s)) (= (bidx s (fnd s i c)) c))) :pattern ((fnd s i c)))))
(assert (forall ((s B) (i Int) (c Int) (k Int)) (! (=> (and (<= i k) (< k (fnd s i c))) (not (= (bidx s k) c))) :pattern ((fnd s i c) (bidx s k)))))
; first position from i on that holds no digit
(declare-fun dend (B Int) Int)
(assert (forall ((s B) (i Int)) (! (and (<= i (dend s i)) (<= (dend s i) (ite (<= i (blen s)) (blen s) i)) (=> (< (dend s i) (blen s)) (not (isdg (bidx s (dend s i)))))) :pattern ((dend s i)))))
(assert (forall ((s B) (i Int) (k Int)) (! (=> (and (<= i k) (< k (dend s i))) (isdg (bidx s k))) :pattern ((dend s i) (bidx s k)))))
; the number written in decimal between i and j
(declare-fun dnum (B Int Int) Int)
(assert (forall ((s B) (i Int)) (! (= (dnum s i i) 0) :pattern ((dnum s i i)))))
(assert (forall ((s B) (i Int) (j Int)) (! (=> (< i j) (= (dnum s i j) (+ (* 10 (dnum s i (- j 1))) (- (bidx s (- j 1)) 48)))) :pattern ((dnum s i j) (tick j)))))
(define-fun digits ((s B) (i Int) (j Int)) Bool (forall ((k Int)) (! (=> (and (<= i k) (< k j)) (isdg (bidx s k))) :pattern ((bidx s k)))))
(define-fun ptyp ((s B)) Int (- (bidx s 0) 48))
(define-fun isbinp ((s B)) Bool (or (= (ptyp s) 5) (= (ptyp s) 6)))
(define-fun cend ((s B)) Int (ite (isbinp s) (fnd s 1 45) 1))
(define-fun natt ((s B)) Int (ite (isbinp s) (dnum s 1 (fnd s 1 45)) 0))
(define-fun npos ((s B)) Int (ite (isbinp s) (+ 1 (fnd s 1 45)) 1))
(define-fun hasns ((s B)) Bool (and (< (npos s) (blen s)) (= (bidx s (npos s)) 47)))
(define-fun nend ((s B)) Int (fnd s (+ 1 (npos s)) 44))
(define-fun nstext ((s B)) B (bsub s (npos s) (nend s)))
(define-fun ipos ((s B)) Int (ite (hasns s) (+ 1 (nend s)) (npos s)))
(define-fun hasid ((s B)) Bool (and (< (ipos s) (blen s)) (isdg (bidx s (ipos s)))))
(define-fun iend ((s B)) Int (ite (hasid s) (dend s (+ 1 (ipos s))) (ipos s)))
(define-fun idtext ((s B)) B (bsub s (ipos s) (iend s)))
(define-fun idnum ((s B)) Int (dnum (idtext s) 0 (blen (idtext s))))
(define-fun hasdata ((s B)) Bool (< (iend s) (blen s)))
(define-fun dattext ((s B)) B (bsub s (iend s) (blen s)))
; what a URL names
; JSON texts and their values
(declare-fun jok (B) Bool)
(declare-fun jval (B) Int)
; regular expressions: how many matches, the first one, what is left when every match is replaced
(declare-fun rxn (Int B) Int)
(declare-fun rxto (Int B) Int)
(declare-fun rxsub (Int B B) B)
(declare-fun rxexp (Int B B) B)
(declare-fun rxgroups (Int) Int)
(declare-fun rxgrp (Int B) B)
(declare-fun rxhit (Int B) Bool)
(declare-fun jsok (B) Bool)
(declare-fun jsval (B) B)
