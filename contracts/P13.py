OPTS = {
    'use': {
        'Java::Util::Arrays::copyOf(Array<long> const&, int)': ('nvcspec__P13__copyOf', 'lemmaCopyOf'),
        'Java::Util::BitSet::ensureCapacity(int)': ('nvcspec__P13__ensureCapacity', 'lemmaEnsureCapacity'),
        'Java::Util::BitSet::recalculateWordsInUse()': ('nvcspec__P13__recalculate', 'lemmaRecalculate'),
        'Java::Lang::Long::numberOfTrailingZeros(long)': ('nvcspec__P13__trailing', 'lemmaTrailing'),
        'Java::Lang::Long::bitCount(long)': ('nvcspec__P13__bits', 'lemmaBitCount'),
        'Java::Lang::Long::numberOfLeadingZeros(long)': ('nvcspec__P13__leading', 'lemmaLeading'),
    },
    '*': {},
}
