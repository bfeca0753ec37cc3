; props: P15
; label: cnt_split, cnt_out, cnt_in, cnt_range: facts about the number of instants in [l,h) outside a set
; cnt is defined by recursion on h; each fact is proved by induction on h (base case, step).
(set-logic ALL)
(declare-fun a (Int) Bool)
(declare-fun cnt (Int Int) Int)
(define-fun def ((l Int) (h Int)) Bool (= (cnt l h) (ite (<= h l) 0 (+ (cnt l (- h 1)) (ite (a (- h 1)) 0 1)))))
(declare-const l Int)
(declare-const m Int)
(declare-const h Int)
(declare-const x Int)
(push 1)
; split, base h = m
(assert (<= l m))
(assert (def m m))
(assert (not (= (cnt l m) (+ (cnt l m) (cnt m m)))))
(check-sat)
(pop 1)
(push 1)
; split, step
(assert (and (<= l m) (<= m h)))
(assert (= (cnt l h) (+ (cnt l m) (cnt m h))))
(assert (def l (+ h 1)))
(assert (def m (+ h 1)))
(assert (not (= (cnt l (+ h 1)) (+ (cnt l m) (cnt m (+ h 1))))))
(check-sat)
(pop 1)
(push 1)
; out and in, base h = l
(assert (def l l))
(assert (not (and (= (cnt l l) (- l l)) (= (cnt l l) 0))))
(check-sat)
(pop 1)
(push 1)
; out, step: no instant of [l,h+1) in a
(assert (<= l h))
(assert (= (cnt l h) (- h l)))
(assert (not (a h)))
(assert (def l (+ h 1)))
(assert (not (= (cnt l (+ h 1)) (- (+ h 1) l))))
(check-sat)
(pop 1)
(push 1)
; in, step: every instant of [l,h+1) in a
(assert (<= l h))
(assert (= (cnt l h) 0))
(assert (a h))
(assert (def l (+ h 1)))
(assert (not (= (cnt l (+ h 1)) 0)))
(check-sat)
(pop 1)
(push 1)
; range, step
(assert (<= l h))
(assert (and (<= 0 (cnt l h)) (<= (cnt l h) (- h l))))
(assert (def l (+ h 1)))
(assert (not (and (<= 0 (cnt l (+ h 1))) (<= (cnt l (+ h 1)) (- (+ h 1) l)))))
(check-sat)
(pop 1)
