OPTS = {
    'use': {
        'Java::Lang::StringBuilder::toString() const': ('nvcspec__P07__text', 'lemmaText'),
        'Java::Lang::StringBuilder::stringMatches(Java::Lang::String, Java::Lang::String, int) const': ('nvcspec__P07__matches', 'lemmaMatches'),
        'Java::Lang::StringBuilder::stringMatchesReverse(Java::Lang::String, Java::Lang::String, int) const': ('nvcspec__P07__matchesReverse', 'lemmaMatchesReverse'),
        'Java::Lang::StringBuilder::ensureCapacity(int)': ('nvcspec__P07__grow', 'lemmaGrow'),
    },
    '*': {},
}
