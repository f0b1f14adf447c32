import sys; sys.path.insert(0,'/verif/tools')
from newseed import seed
W=sys.argv[1:]
def S(id,*a):
    if not W or id in W: seed(id,*a)
S('p02-case-nil-key','P02','a key list that contains nil before the matching key','case stops looking through a key list at a nil key, so a later key of the same list no longer selects the clause',
 [('progn.go','''				_caseValue, list, err = Shift(list)
				if err != nil {
					return nil, err
				}
''','''				_caseValue, list, err = Shift(list)
				if err != nil || IsNone(_caseValue) {
					return nil, err
				}
''')],
 '(format (standard-output) "~s~%" (case 2 ((1 nil 2) 10) (t 20)))\n','10\n')
S('p06-abort-swallowed','P06','the protected form performs (abort), and the clean-up forms complete normally','unwind-protect loses an abort of its protected form and returns nil instead',
 [('progn.go','''	if formErr != nil {
		return nil, formErr
	}
	return value, nil
''','''	if formErr != nil && !errors.Is(formErr, ErrAbort) {
		return nil, formErr
	}
	if IsNone(value) {
		return Null, nil
	}
	return value, nil
''')],
 '(defglobal a nil)\n(unwind-protect (progn (setq a 1) (abort)) (format (standard-output) "cleanup~%"))\n(format (standard-output) "not reached~%")\n','cleanup\n')
S('p02-while-last','P02','a while loop whose last iteration has an empty result after earlier ones did not','while keeps the value of an earlier iteration when the last iteration returned nil',
 [('progn.go','''		last, err = Progn(ctx, w, statements)
		if err != nil {
			return nil, err
		}
''','''		value, err := Progn(ctx, w, statements)
		if err != nil {
			return nil, err
		}
		if IsSome(value) {
			last = value
		}
''')],
 '(defglobal i 0)\n(format (standard-output) "~s~%" (while (< i 3) (setq i (+ i 1)) (if (< i 3) i nil)))\n','nil\n')
