; props: P17
; label: dur_sec: int64(d.Seconds()) == d / time.Second for a whole number of seconds
; time.Duration.Seconds computes float64(d/Second) + float64(d%Second)/1e9; a duration is an
; int64 number of nanoseconds, so the number of whole seconds n is within +-9223372036.
(set-logic ALL)
(declare-const n (_ BitVec 64))
(define-fun ns () (_ FloatingPoint 11 53) ((_ to_fp 11 53) RNE n))
(define-fun frac () (_ FloatingPoint 11 53) (fp.div RNE (_ +zero 11 53) ((_ to_fp 11 53) RNE 1000000000.0)))
(define-fun secs () (_ FloatingPoint 11 53) (fp.add RNE ns frac))
(assert (bvsle n #x0000000225C17D04))
(assert (bvsge n (bvneg #x0000000225C17D04)))
(assert (not (= ((_ fp.to_sbv 64) RTZ secs) n)))
(check-sat)
