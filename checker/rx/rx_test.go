package rx

import "testing"

const gpt2 = `'s|'t|'re|'ve|'m|'ll|'d| ?\p{L}+| ?\p{N}+| ?[^\s\p{L}\p{N}]+|\s+(?!\S)|\s+`

func TestEquivalent(t *testing.T) {
	for _, c := range []struct {
		a  string
		ao int
		b  string
		bo int
		ok bool
	}{
		{gpt2, 2, gpt2, 0, true},
		{gpt2, 3, gpt2, 0, false},
		{`'(?:[stmd]|re|ve|ll)| ?\p{L}+| ?\p{N}+| ?[^\s\p{L}\p{N}]+|\s+(?!\S)|\s+`, 0, gpt2, 0, true},
		{`'(?:[stmd]|re|ve|ll)| ?\p{L}+| ?\p{N}+| ?[^\s\p{L}\p{N}]+|\s+(?=\s)|\s+`, 0, gpt2, 0, false},
		{`'(?:[stmd]|re|ve)| ?\p{L}+| ?\p{N}+| ?[^\s\p{L}\p{N}]+|\s+(?!\S)|\s+`, 0, gpt2, 0, false},
		{` ?\p{L}+|'(?:[stmd]|re|ve|ll)| ?\p{N}+| ?[^\s\p{L}\p{N}]+|\s+(?!\S)|\s+`, 0, gpt2, 0, true},
		{` ?[^\s\p{L}\p{N}]+|'(?:[stmd]|re|ve|ll)| ?\p{L}+| ?\p{N}+|\s+(?!\S)|\s+`, 0, gpt2, 0, false},
		{`'s|'t|'re|'ve|'m|'ll|'d| ?\p{L}+| ?\p{N}+| ?[^\s\p{L}\p{N}]+|\s+`, 0, gpt2, 0, false},
		{`'s|'t|'re|'ve|'m|'ll|'d| ?\p{L}+| ?\d+| ?[^\s\p{L}\p{N}]+|\s+(?!\S)|\s+`, 0, gpt2, 0, false},
		{`\w+|[^\w\s]+`, 3, `\w+|[^\w\s]+`, 0, true},
		{`[^\w\s]+|\w+`, 3, `\w+|[^\w\s]+`, 0, true},
		{`\w+?|[^\w\s]+`, 3, `\w+|[^\w\s]+`, 0, false},
		{`\w\w*|[^\w\s]{1,}`, 3, `\w+|[^\w\s]+`, 0, true},
		{`a|ab`, 0, `ab?`, 0, false},
		{`ab|a`, 0, `ab?`, 0, true},
		{`a{2,4}`, 0, `aaa?a?`, 0, true},
		{`k`, 1, `k`, 0, false},
		{`k`, 1, "[kK\u212a]", 0, true},
	} {
		r, err := Equivalent(c.a, c.ao, c.b, c.bo)
		if err != nil || r.Same != c.ok {
			t.Errorf("%q %d, %q %d: %+v %v", c.a, c.ao, c.b, c.bo, r, err)
		}
	}
}
