package main

import (
	"fmt"
	"math/rand"
	"strings"
)

// Code points an implementation may be tempted to treat on their own.

var notableRanges = [][2]rune{
	{0x0000, 0x00FF},                                     // ASCII, Latin-1
	{0x0130, 0x0131}, {0x0149, 0x0149}, {0x017F, 0x017F}, // Turkish i, 'n, long s
	{0x01C4, 0x01CC}, {0x01F1, 0x01F3}, // titlecase digraphs
	{0x02B9, 0x02BC}, {0x02D7, 0x02D7}, {0x0300, 0x0303}, {0x0308, 0x0308}, // modifier letters, accents
	{0x034F, 0x034F}, {0x0345, 0x0345}, {0x037E, 0x037E}, {0x0387, 0x0387}, // CGJ, ypogegrammeni, Greek question mark
	{0x03A3, 0x03A3}, {0x03C2, 0x03C3}, {0x0483, 0x0489}, // sigmas, Cyrillic marks
	{0x0559, 0x055F}, {0x0589, 0x058A}, {0x05BE, 0x05BE}, {0x05C3, 0x05C3}, {0x05F3, 0x05F4}, // Armenian and Hebrew punctuation
	{0x0600, 0x0606}, {0x060C, 0x060D}, {0x061B, 0x061F}, {0x0640, 0x0640}, // Arabic
	{0x064B, 0x064B}, {0x0660, 0x0660}, {0x066A, 0x066D}, {0x06D4, 0x06D4}, {0x06DD, 0x06DD},
	{0x070F, 0x0711}, {0x07F4, 0x07F5}, {0x0890, 0x0891}, {0x08E2, 0x08E2},
	{0x0903, 0x0903}, {0x0915, 0x0916}, {0x093C, 0x093C}, {0x094D, 0x094D}, {0x0964, 0x0965}, {0x0966, 0x0966}, // Devanagari
	{0x09BE, 0x09BE}, {0x0D4E, 0x0D4E}, {0x0CC0, 0x0CC0}, {0x0BCD, 0x0BCD},
	{0x0E01, 0x0E01}, {0x0E31, 0x0E33}, {0x0E40, 0x0E40}, {0x0E46, 0x0E46}, {0x0E4F, 0x0E4F}, // Thai
	{0x0EB3, 0x0EB3}, {0x0F0B, 0x0F0D}, {0x0F71, 0x0F73}, {0x1000, 0x1000}, {0x1031, 0x1031}, {0x104A, 0x104B},
	{0x10A0, 0x10A0}, {0x10D0, 0x10D0}, {0x1100, 0x1100}, {0x115F, 0x1161}, {0x11A8, 0x11A8}, {0x11FF, 0x11FF},
	{0x1362, 0x1362}, {0x1367, 0x1367}, {0x1680, 0x1680}, {0x17B4, 0x17B5}, {0x17D4, 0x17D4}, {0x1780, 0x1780},
	{0x1802, 0x180F}, {0x1AB0, 0x1AB0}, {0x1C80, 0x1C80}, {0x1CD0, 0x1CD0}, {0x1E9E, 0x1E9E}, {0x1F00, 0x1F00},
	{0x2000, 0x206F}, // General Punctuation
	{0x20AC, 0x20AC}, {0x20D0, 0x20D0}, {0x20DD, 0x20E3}, {0x2102, 0x2102}, {0x2122, 0x2122}, {0x212A, 0x212B}, {0x2139, 0x2139},
	{0x2190, 0x2199}, {0x21A9, 0x21AA}, {0x231A, 0x231B}, {0x23CF, 0x23CF}, {0x24B6, 0x24B6}, {0x24C2, 0x24C2}, {0x24D0, 0x24D0},
	{0x25B6, 0x25B6}, {0x2600, 0x2600}, {0x2605, 0x2605}, {0x2640, 0x2642}, {0x2695, 0x2695}, {0x26F9, 0x26F9},
	{0x2701, 0x2705}, {0x270A, 0x270D}, {0x275B, 0x2764}, {0x2795, 0x2795}, {0x27BF, 0x27BF}, {0x2CEF, 0x2CEF}, {0x2D7F, 0x2D7F},
	{0x2E3C, 0x2E3C}, {0x3000, 0x3007}, {0x300C, 0x300D}, {0x302A, 0x3035}, {0x303D, 0x303D}, // CJK
	{0x3041, 0x3043}, {0x3099, 0x30A2}, {0x30FB, 0x30FF}, {0x3131, 0x3131}, {0x3164, 0x3164}, {0x31F0, 0x31F0}, {0x3297, 0x3299},
	{0x3400, 0x3400}, {0x4DBF, 0x4DC0}, {0x4E00, 0x4E01}, {0x9FFF, 0xA000}, {0xA4F8, 0xA4FF}, {0xA66F, 0xA672}, {0xA69E, 0xA69E},
	{0xA717, 0xA71F}, {0xA789, 0xA78A}, {0xA802, 0xA802}, {0xA8E0, 0xA8E0}, {0xA95F, 0xA960}, {0xAA7B, 0xAA7B}, {0xAB70, 0xAB70}, {0xABEB, 0xABED},
	{0xAC00, 0xAC02}, {0xAC1B, 0xAC1D}, {0xD788, 0xD788}, {0xD7A3, 0xD7A4}, {0xD7B0, 0xD7B0}, {0xD7CB, 0xD7CB}, {0xD7FF, 0xD7FF},
	{0xE000, 0xE000}, {0xF8FF, 0xF900}, {0xFA0E, 0xFA0E}, {0xFB00, 0xFB00}, {0xFB1D, 0xFB1E}, {0xFB2A, 0xFB2A}, {0xFB4F, 0xFB50}, {0xFD3E, 0xFD3F}, {0xFDFA, 0xFDFA},
	{0xFE00, 0xFE19}, {0xFE20, 0xFE20}, {0xFE2F, 0xFE36}, {0xFE4D, 0xFE58}, {0xFE63, 0xFE63}, {0xFE70, 0xFE70}, {0xFEFE, 0xFF01},
	{0xFF07, 0xFF10}, {0xFF19, 0xFF21}, {0xFF3F, 0xFF41}, {0xFF5B, 0xFF67}, {0xFF70, 0xFF71}, {0xFF9D, 0xFFA1}, {0xFFDC, 0xFFDC}, {0xFFE9, 0xFFE9}, {0xFFF0, 0xFFFF},
	{0x10000, 0x10000}, {0x10100, 0x10100}, {0x101FD, 0x101FD}, {0x10400, 0x10400}, {0x10428, 0x10428}, {0x104A0, 0x104A0}, {0x10A01, 0x10A01}, {0x10EFD, 0x10EFD},
	{0x110BD, 0x110BD}, {0x110CD, 0x110CD}, {0x11000, 0x11001}, {0x11133, 0x11133}, {0x11F02, 0x11F02}, {0x13430, 0x1343F}, {0x16FE4, 0x16FE4},
	{0x1AFF0, 0x1AFF0}, {0x1B000, 0x1B001}, {0x1BC9F, 0x1BCA0}, {0x1D165, 0x1D165}, {0x1D173, 0x1D173}, {0x1D400, 0x1D401}, {0x1D7CE, 0x1D7CE}, {0x1D7FF, 0x1D7FF},
	{0x1E130, 0x1E130}, {0x1EE00, 0x1EE00}, {0x1F000, 0x1F004}, {0x1F0CF, 0x1F0CF}, {0x1F12F, 0x1F131}, {0x1F170, 0x1F171}, {0x1F18E, 0x1F18E},
	{0x1F1AD, 0x1F1AE}, {0x1F1E5, 0x1F201}, {0x1F300, 0x1F300}, {0x1F308, 0x1F308}, {0x1F3F3, 0x1F400}, {0x1F441, 0x1F441}, {0x1F466, 0x1F469}, {0x1F476, 0x1F476},
	{0x1F48B, 0x1F48B}, {0x1F5E8, 0x1F5E8}, {0x1F600, 0x1F600}, {0x1F650, 0x1F650}, {0x1F676, 0x1F678}, {0x1F6D1, 0x1F6D1}, {0x1F91D, 0x1F91D}, {0x1F9B0, 0x1F9B0}, {0x1F9D1, 0x1F9D1}, {0x1FAFF, 0x1FAFF}, {0x1FBF0, 0x1FBF0},
	{0x1FFFD, 0x20000}, {0x2FA1D, 0x2FA1D}, {0x30000, 0x30000}, {0xE0000, 0xE0001}, {0xE001F, 0xE0021}, {0xE0061, 0xE0061}, {0xE007E, 0xE0080}, {0xE00FF, 0xE0100}, {0xE01EF, 0xE01F0}, {0xE0FFF, 0xE1000},
	{0xF0000, 0xF0000}, {0xFFFFD, 0xFFFFF}, {0x100000, 0x100000}, {0x10FFFD, 0x10FFFF},
}

func notables() []rune {
	var out []rune
	for _, x := range notableRanges {
		for c := x[0]; c <= x[1]; c++ {
			if !isSurrogate(int(c)) {
				out = append(out, c)
			}
		}
	}
	return append(out, lits().runes...)
}

// bulk: code points of the great uniform ranges, which suiteEverywhere only samples
func bulk(c int) bool {
	return 0x3400 <= c && c < 0xA000 || 0xAC00 <= c && c < 0xD7B0 || 0xE000 <= c && c < 0xF900 ||
		0x12000 <= c && c < 0x16800 || 0x17000 <= c && c < 0x1AFF0 || c >= 0x20000 && !(0xE0000 <= c && c < 0xE0200)
}

// usableWords drops the words over kinds that no code point has
func (s *seg) usableWords(ws [][]uint8) [][]uint8 {
	var out [][]uint8
next:
	for _, w := range ws {
		for _, x := range w {
			if len(s.reps[x]) == 0 {
				continue next
			}
		}
		out = append(out, w)
	}
	return out
}

// suiteNotable: code points an implementation may single out, in every state of the machine and
// before every kind and characterising suffix; and every pair of them inside short texts
func suiteNotable(s *seg) {
	p := s.picker()
	alpha := s.alphabet()
	cps := notables()
	access := s.usableWords(s.mn.access)
	sufs := s.usableWords(s.mn.w)
	name := fmt.Sprintf("%s: %d notable code points x every state x every kind x suffix", s.name, len(cps))
	parallel(name, func(w int, r *rand.Rand) int64 {
		c := newChecker(s)
		run := func(t string, paths int) {
			if f := c.check(t, paths); f != nil {
				report(name, c, f, paths)
			}
		}
		for i := w; i < len(cps) && !stopped(); i += nWorkers {
			x := string(cps[i])
			for _, a := range access {
				pre := p.text(r, a) + x
				for _, k := range alpha {
					suf := sufs[r.Intn(len(sufs))]
					run(pre+string(p.pick(r, k))+p.text(r, suf), pStr|pSplit)
				}
				for _, suf := range sufs {
					run(pre+p.text(r, suf), pStr|pBytes)
					run(pre+x+p.text(r, suf), pStr)
				}
			}
			for n := 3; n <= 9; n++ {
				t := strings.Repeat(x, n)
				run(t, pStr|pSplit)
				run("a"+t+"b", pStr|pSplit)
				run(t+" A", pStr|pSplit)
			}
		}
		return c.runs
	})
	name2 := fmt.Sprintf("%s: every pair of %d notable code points", s.name, len(cps))
	parallel(name2, func(w int, r *rand.Rand) int64 {
		c := newChecker(s)
		run := func(t string, paths int) {
			if f := c.check(t, paths); f != nil {
				report(name2, c, f, paths)
			}
		}
		for i := w; i < len(cps) && !stopped(); i += nWorkers {
			x := string(cps[i])
			for _, q := range cps {
				y := string(q)
				run(x+y, pStr|pSplit)
				a, b := p.text(r, access[r.Intn(len(access))]), p.text(r, sufs[r.Intn(len(sufs))])
				run(a+x+y+b, pStr|pBytes)
				run(x+p.text(r, alpha[r.Intn(len(alpha)):][:1])+y+b, pStr)
			}
		}
		return c.runs
	})
}

// suiteEverywhere: every code point behind an access word of every state (the great uniform ranges
// sampled in the quick run), before a random kind and suffix
func suiteEverywhere(s *seg, some int) {
	p := s.picker()
	alpha := s.alphabet()
	access := s.usableWords(s.mn.access)
	sufs := s.usableWords(s.mn.w)
	name := fmt.Sprintf("%s: every code point x every state", s.name)
	parallel(name, func(w int, r *rand.Rand) int64 {
		c := newChecker(s)
		for cp := w; cp < 0x110000 && !stopped(); cp += nWorkers {
			if isSurrogate(cp) || some > 1 && bulk(cp) && r.Intn(some) != 0 {
				continue
			}
			x := string(rune(cp))
			for _, a := range access {
				t := p.text(r, a) + x
				if r.Intn(3) != 0 {
					t += p.text(r, alpha[r.Intn(len(alpha)):][:1])
				}
				t += p.text(r, sufs[r.Intn(len(sufs))])
				if f := c.check(t, pStr); f != nil {
					report(name, c, f, pStr)
				}
			}
		}
		return c.runs
	})
}
