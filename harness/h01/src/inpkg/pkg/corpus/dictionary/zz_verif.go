package dictionary

import "strconv"

// ZZVocabulary is a dictionary of words with the given frequencies.
func ZZVocabulary(freqs []int) *Dictionary {
	d := New()
	for i := range freqs {
		d.Add("w" + strconv.Itoa(i))
	}
	copy(d.cfs, freqs)
	return d
}
