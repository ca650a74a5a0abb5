package vrt

import (
	"io"
	"strconv"
)

type stringer interface{ String() string }

func quote(s string) string { return strconv.Quote(s) }

func hexStr(s string, upper bool) string {
	const lo, up = "0123456789abcdef", "0123456789ABCDEF"
	d := lo
	if upper {
		d = up
	}
	b := make([]byte, 0, 2*len(s))
	for i := 0; i < len(s); i++ {
		b = append(b, d[s[i]>>4], d[s[i]&15])
	}
	return string(b)
}

func sprintArg(verb byte, plus, sharp bool, a interface{}) string {
	if verb == 'T' {
		return typeName(a)
	}
	if a == nil {
		if verb == 'v' || verb == 's' {
			if verb == 's' {
				return "%!s(<nil>)"
			}
			return "<nil>"
		}
		return "%!" + string([]byte{verb}) + "(<nil>)"
	}
	if verb == 'v' || verb == 's' || verb == 'q' || verb == 'w' {
		if !sharp {
			if e, ok := a.(error); ok {
				s := e.Error()
				if verb == 'q' {
					return quote(s)
				}
				return s
			}
			if e, ok := a.(stringer); ok {
				s := e.String()
				if verb == 'q' {
					return quote(s)
				}
				return s
			}
		}
	}
	var list []interface{}
	isList := true
	switch x := a.(type) {
	case []string:
		for _, e := range x {
			list = append(list, e)
		}
	case []int:
		for _, e := range x {
			list = append(list, e)
		}
	case []error:
		for _, e := range x {
			list = append(list, e)
		}
	case []interface{}:
		list = x
	default:
		isList = false
	}
	if isList && !sharp {
		r := "["
		for j, e := range list {
			if j > 0 {
				r += " "
			}
			r += sprintArg(verb, plus, sharp, e)
		}
		return r + "]"
	}
	k, s, i, u := under(a)
	switch k {
	case 1, 5: // string, []byte
		switch verb {
		case 'q':
			return quote(s)
		case 'x':
			return hexStr(s, false)
		case 'X':
			return hexStr(s, true)
		case 'v':
			if sharp && k == 1 {
				return quote(s)
			}
			if k == 5 {
				r := "["
				for j := 0; j < len(s); j++ {
					if j > 0 {
						r += " "
					}
					r += strconv.Itoa(int(s[j]))
				}
				return r + "]"
			}
		}
		return s
	case 2:
		switch verb {
		case 'c':
			return string(rune(i))
		case 'q':
			return strconv.QuoteRune(rune(i))
		case 'x':
			return strconv.FormatInt(i, 16)
		case 'b':
			return strconv.FormatInt(i, 2)
		case 'o':
			return strconv.FormatInt(i, 8)
		}
		r := strconv.FormatInt(i, 10)
		if plus && i >= 0 {
			r = "+" + r
		}
		return r
	case 3:
		switch verb {
		case 'c':
			return string(rune(u))
		case 'x':
			return strconv.FormatUint(u, 16)
		case 'b':
			return strconv.FormatUint(u, 2)
		case 'o':
			return strconv.FormatUint(u, 8)
		}
		return strconv.FormatUint(u, 10)
	case 4:
		if u != 0 {
			return "true"
		}
		return "false"
	}
	return s
}

func Sprintf(format string, args ...interface{}) string {
	out := make([]byte, 0, len(format)+16)
	n := 0
	for i := 0; i < len(format); i++ {
		c := format[i]
		if c != '%' {
			out = append(out, c)
			continue
		}
		i++
		plus, sharp, minus, zero := false, false, false, false
	flags:
		for i < len(format) {
			switch format[i] {
			case '+':
				plus = true
			case '#':
				sharp = true
			case '-':
				minus = true
			case '0':
				zero = true
			case ' ':
			default:
				break flags
			}
			i++
		}
		w := 0
		for i < len(format) && format[i] >= '0' && format[i] <= '9' {
			w = w*10 + int(format[i]-'0')
			i++
		}
		if i < len(format) && format[i] == '.' {
			i++
			for i < len(format) && format[i] >= '0' && format[i] <= '9' {
				i++
			}
		}
		if i >= len(format) {
			out = append(out, "%!(NOVERB)"...)
			break
		}
		verb := format[i]
		if verb == '%' {
			out = append(out, '%')
			continue
		}
		if n >= len(args) {
			out = append(out, "%!"...)
			out = append(out, verb)
			out = append(out, "(MISSING)"...)
			continue
		}
		s := sprintArg(verb, plus, sharp, args[n])
		n++
		for k := len(s); k < w && !minus; k++ {
			if zero {
				out = append(out, '0')
			} else {
				out = append(out, ' ')
			}
		}
		out = append(out, s...)
		for k := len(s); k < w && minus; k++ {
			out = append(out, ' ')
		}
	}
	if n < len(args) {
		out = append(out, "%!(EXTRA )"...)
	}
	return string(out)
}

func isString(v interface{}) bool {
	k := 0
	if v != nil {
		k, _, _, _ = under(v)
	}
	return k == 1
}

func Sprint(args ...interface{}) string {
	out := ""
	prev := false
	for i, a := range args {
		s := isString(a)
		if i > 0 && !s && !prev {
			out += " "
		}
		out += sprintArg('v', false, false, a)
		prev = s
	}
	return out
}

func Sprintln(args ...interface{}) string {
	out := ""
	for i, a := range args {
		if i > 0 {
			out += " "
		}
		out += sprintArg('v', false, false, a)
	}
	return out + "\n"
}

func Fprintf(w io.Writer, format string, args ...interface{}) (int, error) {
	return w.Write([]byte(Sprintf(format, args...)))
}

func Fprint(w io.Writer, args ...interface{}) (int, error) {
	return w.Write([]byte(Sprint(args...)))
}

func Fprintln(w io.Writer, args ...interface{}) (int, error) {
	return w.Write([]byte(Sprintln(args...)))
}

func Printf(format string, args ...interface{}) (int, error) { return 0, nil }
func Println(args ...interface{}) (int, error)               { return 0, nil }
func Print(args ...interface{}) (int, error)                 { return 0, nil }

type plainError struct{ s string }

func (e *plainError) Error() string { return e.s }

type wrapError struct {
	s   string
	err error
}

func (e *wrapError) Error() string { return e.s }
func (e *wrapError) Unwrap() error { return e.err }

func Errorf(format string, args ...interface{}) error {
	s := Sprintf(format, args...)
	n := 0
	for i := 0; i+1 < len(format); i++ {
		if format[i] != '%' {
			continue
		}
		i++
		if format[i] == '%' {
			continue
		}
		if format[i] == 'w' && n < len(args) {
			if e, ok := args[n].(error); ok {
				return &wrapError{s, e}
			}
		}
		n++
	}
	return &plainError{s}
}

func Is(err, target error) bool {
	if err == nil || target == nil {
		return err == target
	}
	cmp := comparable(target)
	for {
		if cmp && comparable(err) && err == target {
			return true
		}
		if x, ok := err.(interface{ Is(error) bool }); ok && x.Is(target) {
			return true
		}
		switch x := err.(type) {
		case interface{ Unwrap() error }:
			err = x.Unwrap()
			if err == nil {
				return false
			}
		case interface{ Unwrap() []error }:
			for _, e := range x.Unwrap() {
				if Is(e, target) {
					return true
				}
			}
			return false
		default:
			return false
		}
	}
}

func As(err error, target interface{}) bool {
	for err != nil {
		if asOne(err, target) {
			return true
		}
		if x, ok := err.(interface{ As(interface{}) bool }); ok && x.As(target) {
			return true
		}
		switch x := err.(type) {
		case interface{ Unwrap() error }:
			err = x.Unwrap()
		case interface{ Unwrap() []error }:
			for _, e := range x.Unwrap() {
				if As(e, target) {
					return true
				}
			}
			return false
		default:
			return false
		}
	}
	return false
}

func SortSlice(s interface{}, less func(i, j int) bool) {
	n := length(s)
	for i := 1; i < n; i++ {
		for j := i; j > 0 && less(j, j-1); j-- {
			swap(s, j, j-1)
		}
	}
}

type pool struct{ New func() interface{} }
