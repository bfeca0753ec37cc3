; props: P03
; label: wf_match and rx_parts: the regular languages behind contracts/indexargs.gvc
; The code's expression \A(.+?):((.+?(\+)?)+)\z matches s iff s = a ++ ":" ++ b with a, b
; non-empty and without newline, a and b being the two captures.
(set-logic ALL)
(define-fun W () RegLan (re.+ (re.union (re.range "a" "z") (re.range "A" "Z") (re.range "0" "9") (str.to_re "_"))))
(define-fun C () RegLan (re.++ W (re.* (re.++ (str.to_re "+") W))))
(define-fun D () RegLan (re.+ (re.diff re.allchar (str.to_re "\u{0a}"))))
(declare-const s String)
(declare-const a String)
(declare-const b String)
(declare-const p String)
(push 1)
; a well-formed text is matched
(assert (str.in_re s (re.++ W (str.to_re ":") C)))
(assert (not (str.in_re s (re.++ D (str.to_re ":") D))))
(check-sat)
(pop 1)
(push 1)
; captures that are a word and a word list make the text well-formed
(assert (= s (str.++ a ":" b)))
(assert (str.in_re a W))
(assert (str.in_re b C))
(assert (not (str.in_re s (re.++ W (str.to_re ":") C))))
(check-sat)
(pop 1)
(push 1)
; the captures of a well-formed text are a word ...
(assert (= s (str.++ a ":" b)))
(assert (str.in_re s (re.++ W (str.to_re ":") C)))
(assert (not (str.in_re a W)))
(assert (str.in_re a D))
(assert (str.in_re b D))
(check-sat)
(pop 1)
(push 1)
; ... and a word list
(assert (= s (str.++ a ":" b)))
(assert (str.in_re s (re.++ W (str.to_re ":") C)))
(assert (not (str.in_re b C)))
(assert (str.in_re a D))
(assert (str.in_re b D))
(check-sat)
(pop 1)
