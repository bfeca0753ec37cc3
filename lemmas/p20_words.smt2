; props: P20
; label: wq: a text of word characters only contains no question mark
(set-logic ALL)
(define-fun W () RegLan (re.+ (re.union (re.range "a" "z") (re.range "A" "Z") (re.range "0" "9") (str.to_re "_"))))
(declare-const s String)
(push 1)
(assert (str.in_re s W))
(assert (str.in_re s (re.++ re.all (str.to_re "?") re.all)))
(check-sat)
(pop 1)
(push 1)
; nor a quote, a backslash or a line break
(assert (str.in_re s W))
(assert (str.in_re s (re.++ re.all (re.union (str.to_re "'") (str.to_re "\u{5c}") (str.to_re "\u{0a}") (str.to_re """")) re.all)))
(check-sat)
(pop 1)
