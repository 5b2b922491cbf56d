from seedlib import seed
seed('c02-cached-factor', 'C02', [('riblt/random.go', '	xm := float64(r) / (1 << 64)\n', '''	xm, ok := fractions[uint32(r>>32)]
	if !ok {
		// the low bits do not matter for the fraction
		xm = float64(r) / (1 << 64)
		if len(fractions) < 4096 {
			fractions[uint32(r>>32)] = xm
		}
	}
'''), ('riblt/random.go', '// degree sequence is', 'var fractions = map[uint32]float64{}\n\n// degree sequence is')], 'riblt', '''package riblt
import ("testing"; "os"; "os/exec"; "fmt"; "strings")
func TestDemo(t *testing.T) {
	mult := uint64(0xda942042e4dd58b5)
	inv := mult
	for i := 0; i < 6; i++ { inv *= 2 - mult*inv }
	// two hashes whose first steps come from random numbers with equal upper halves
	hs := []uint64{(1<<64-5000)*inv, (1<<64-4000000000)*inv}
	if o := os.Getenv("DEMO_ORDER"); o != "" {
		for _, c := range o { m := randomMapping{hs[c-'0'], 0}; fmt.Printf("index%c=%d\\n", c, m.nextIndex()) }
		return
	}
	get := func(order string) string {
		c := exec.Command(os.Args[0], "-test.run", "^TestDemo$"); c.Env = append(os.Environ(), "DEMO_ORDER="+order)
		b, err := c.Output(); if err != nil { t.Fatal(err) }
		for _, l := range strings.Split(string(b), "\\n") { if strings.HasPrefix(l, "index1=") { return l } }
		return "?"
	}
	if a, b := get("01"), get("10"); a != b { t.Fatal("the index of a hash depends on what was mapped before:", a, b) }
}
''', 'two symbols whose random numbers agree in their upper half', 'the mapping of a hash depends on the hashes mapped before it')
