prop('P01', 'Exact and floor integer arithmetic of Math',
     'For all int and long arguments Math::addExact, subtractExact, multiplyExact, incrementExact, decrementExact, negateExact and toIntExact return the mathematical result when it fits the result type and throw ArithmeticException exactly when it does not. '
     'floorDiv returns the quotient rounded towards minus infinity and floorMod the matching remainder a - floorDiv(a,b)*b; both throw ArithmeticException exactly for a zero divisor and never trap. '
     'max, min and abs (int, long) return the larger, the smaller, the absolute value.',
     'all values of all int/long arguments', 'MathTest samples one or two values per function; overflow boundaries are a set of measure zero among 2^64 pairs.',
     ['library/Java/Lang/Math/Math.cpp'], [('sign tests on the wrapped result, comparisons with MIN_VALUE/MAX_VALUE, rounding correction', 'Math::addExact .. Math::toIntExact, Math::floorDiv/floorMod')],
     ['return value', 'ArithmeticException'])
prop('P02', 'Bit manipulation and unsigned arithmetic of Integer and Long',
     'For every value, the static functions bitCount, highestOneBit, lowestOneBit, numberOfLeadingZeros, numberOfTrailingZeros, reverse, reverseBytes, rotateLeft, rotateRight, signum and compare of Integer and Long return what their Java namesakes define on the 32-bit or 64-bit two\'s complement pattern. '
     'Integer::toUnsignedLong, compareUnsigned, divideUnsigned and remainderUnsigned treat their arguments as unsigned and throw ArithmeticException exactly for a zero divisor; Integer::sum wraps, max and min return the larger and the smaller. '
     'hashCode is the value (Integer) or the exclusive or of the two halves (Long).',
     'all 2^32 / 2^64 values, all rotation distances', 'The tests try a few positive values; sign-bit patterns, zero and distances outside 0..31/63 are where bit tricks go wrong.',
     ['library/Java/Lang/Integer/Integer.cpp', 'library/Java/Lang/Long/Long.cpp'], [('shift-and-mask networks and loops over bit positions', 'Integer::/Long:: bitCount .. signum')],
     ['return value', 'ArithmeticException'])
prop('P03', 'Arithmetic, comparison and text form of the integral wrappers',
     'The operators + - * / % of Integer, Long, Short and Bytes give the wrapped result of the primitive operation, / and % throw ArithmeticException exactly for a zero divisor and never trap, operands are unchanged, and the six comparison operators, compareTo, equals and compare agree with the primitive order. '
     'A wrapper\'s toString() is at every moment the decimal text of its current value: after construction, copy, assignment, self-assignment and the compound assignments += -= *= /= %= of Integer, Long and Bytes. '
     'The xxxValue() conversions and valueOf give what the C++ conversion of the primitive gives, and Boolean holds, compares, copies and prints its value.',
     'all values of both operands, all histories of one wrapper built from these operations', 'Tests use small positive operands; MIN_VALUE, -1, wrap-around, self-assignment and stale cached text need particular values or sequences.',
     ['library/Java/Lang/Integer/Integer.cpp', 'library/Java/Lang/Integer/Integer.hpp', 'library/Java/Lang/Long/Long.cpp', 'library/Java/Lang/Long/Long.hpp', 'library/Java/Lang/Short/Short.cpp', 'library/Java/Lang/Bytes/Bytes.cpp', 'library/Java/Lang/Boolean/Boolean.cpp'],
     [('value plus separately allocated cached text (originalString)', 'constructors, operator=, compound operators')],
     ['operators', 'toString()', 'xxxValue()', 'ArithmeticException'], over=('inputs', 'histories'))
prop('P05', 'Reading, searching and comparing strings',
     'For every String (any bytes, any length) charAt returns the character at the index and throws StringIndexOutOfBoundsException exactly outside 0..length()-1; startsWith (with and without offset), endsWith, contains and the indexOf/lastIndexOf family (character or non-empty substring, with and without start index) report exactly the occurrences there are and return the first (last) admissible one or -1. '
     'equals, ==, != hold exactly for equal characters, compareTo and the order operators order texts by the first differing character as unsigned bytes and then by length, equalsIgnoreCase and compareToIgnoreCase == 0 hold exactly for texts equal up to ASCII case, and regionMatches exactly for equal regions. '
     'hashCode is the polynomial sum s[0]*31^(n-1)+...+s[n-1] of the current characters, hence equal for equal strings, also after assignment.',
     'all strings of any length and content, all indices', 'Tests use a few literals; occurrences at the ends, negative and too large indices, empty strings, NUL and non-ASCII bytes, repeated prefixes are not covered.',
     ['library/Java/Lang/String/String.cpp', 'library/Java/Lang/String/String.hpp'], [('wrappers over std::string find/rfind/compare, index arithmetic, cached hash', 'String::charAt, indexOf, lastIndexOf, startsWith, endsWith, compareTo, hashCode')],
     ['return value', 'StringIndexOutOfBoundsException'], over=('inputs', 'histories'))
prop('P06', 'Building strings from strings, arrays and primitives',
     'For every String (any bytes, any length) and all arguments: subString returns exactly the characters of a valid range and the empty string for an invalid one, getStringFromIndex the tail or StringIndexOutOfBoundsException exactly outside 0..length()-1, concat, + and += (String, char*, char, also s += s) exactly the concatenation, replace(char, char) replaces every occurrence and nothing else, trim drops exactly the spaces at both ends, and replaceFirst of an absent text is the string itself. '
     'toCharArray, getBytes, getChars, copyValueOf, fromCharArray and the constructors from arrays, array ranges, char pointers and strings transfer exactly the characters of the (range of the) source, throw StringIndexOutOfBoundsException exactly for ranges outside it, and leave everything else (this string, other operands, the rest of the destination) unchanged; copies are independent. '
     'valueOf(short, int, long, boolean, char, char*) is the decimal text, the word, the character, the text, and contentEquals holds exactly for equal texts.',
     'all strings and arrays of any length and content, all indices', 'Tests use a few literals; embedded NUL, empty ranges, offsets near INT_MAX, self-append and aliasing are not covered.',
     ['library/Java/Lang/String/String.cpp', 'library/Java/Lang/String/String.hpp', 'library/Kernel/Java.hpp'], [('range checks with int arithmetic, element-wise copy loops', 'String::subString, getChars, String(Array, int, int), trim, replace')],
     ['return value', 'StringIndexOutOfBoundsException', 'destination array'], over=('inputs', 'histories'))
prop('P08', 'ArrayList, Vector and Stack are sequences',
     'For every content and every argument: ArrayList get, set, add, add(index, e), remove(index), remove(e), indexOf, lastIndexOf, contains, clear, clone, toArray, isEmpty, size and its constructors from Array and initializer list, and Vector get, elementAt, operator[], set, add, addElement, insertElementAt, remove(index), removeElementAt, indexOf and lastIndexOf (with and without start index), contains, firstElement, lastElement, addAll(index, list), removeRange, setSize, clear, clone, copy, assignment, equals, toArray and copyInto change and report exactly the sequence of elements that their Java namesakes do, with indices of the other elements shifted and nothing else changed. '
     'An index outside the sequence is refused with IndexOutOfBoundsException (ArrayList) or IllegalArgumentException (Vector) exactly when it is outside, and then nothing changes; copies are independent of their source. '
     'Stack push, pop, peek, empty and search are last-in first-out, and pop and peek throw EmptyStackException exactly on an empty stack.',
     'all sequences of any length of 64-bit elements, all indices and elements', 'Tests use lists of a few elements; empty lists, first and last positions, absent and repeated elements are not covered.',
     ['library/Java/Util/ArrayList/ArrayList.hpp', 'library/Java/Util/Vector/Vector.hpp', 'library/Java/Util/Stack/Stack.hpp', 'library/Kernel/Java.hpp'], [('range checks and iterator arithmetic over std::vector', 'ArrayList::add/remove/indexOf, Vector::insertElementAt/removeRange/lastIndexOf, Stack::pop/search')],
     ['return value', 'IndexOutOfBoundsException', 'IllegalArgumentException', 'EmptyStackException', 'elements'])
prop('P13', 'BitSet is a set of non-negative bit indices',
     'For every BitSet, every index and every range: get, set(i), set(i, v), clear(i), flip(i), set(from, to), clear(from, to), flip(from, to), get(from, to) and clear() read or change exactly the bits named and throw IndexOutOfBoundsException exactly for a negative index or a bad range; bitAnd, bitOr, bitXor and andNot compute the set operation bit by bit and leave their argument unchanged. '
     'nextSetBit, nextClearBit, previousSetBit, previousClearBit, length, isEmpty, size, intersects, ==, cardinality, toLongArray, valueOf(long[]), clone, copy construction and assignment agree with the bits that are set; copies are independent. '
     'Every operation keeps the representation consistent: the words in use fit the array, the last of them is not zero and all words behind are zero.',
     'all sets of up to 2^31 bits in every representation the operations can produce, all indices and ranges', 'Tests use a handful of small sets; word boundaries, ranges ending at multiples of 64, words beyond the words in use and stale words left by an earlier operation are not covered.',
     ['library/Java/Util/BitSet/BitSet.cpp', 'library/Java/Util/BitSet/BitSet.hpp'], [('word/bit arithmetic, wordsInUse bookkeeping, mask shifts', 'BitSet::set/clear/flip/get ranges, bitAnd..andNot, nextSetBit.., recalculateWordsInUse, ensureCapacity')],
     ['return value', 'IndexOutOfBoundsException', 'bits of the set'], over=('inputs', 'histories'))
prop('P07', 'StringBuilder edits exactly the characters named',
     'For every StringBuilder (any text, any capacity) and all arguments: append (String, CharSequence range, char, boolean, char array and array range), insert (String, char, CharSequence range, char array range), replace, deleteRange, deleteCharAt, setCharAt, setLength, reverse, substring, charAt, toString, indexOf and lastIndexOf of a non-empty pattern (with and without start index) produce exactly the documented text or position, and throw exactly for an index or range outside the text, then leaving the text unchanged. '
     'Every operation keeps the length within the capacity and the capacity within the allocated memory; ensureCapacity, trimToSize and growth never change the text. '
     'Copies and assigned builders are independent of their source.',
     'all texts without NUL of any length, all capacities, all indices', 'Tests use a few short builders; growth at exact capacities, empty texts and ranges, indices at the ends, repeated patterns and overflowing ranges are not covered.',
     ['library/Java/Lang/StringBuilder/StringBuilder.cpp', 'library/Java/Lang/StringBuilder/StringBuilder.hpp'], [('hand-managed buffer, memmove arithmetic, KMP search', 'StringBuilder::insert/replace/deleteRange/ensureCapacity/reverse/stringMatches')],
     ['return value', 'IndexOutOfBoundsException', 'StringIndexOutOfBoundsException', 'text', 'length()', 'capacity()'],
     note='That replace moves the tail correctly is bounded (texts of up to 5 characters).')
prop('P12', 'Arrays copies, compares, fills, hashes, searches and sorts arrays',
     'For every array and all arguments: Arrays::copyOf truncates or pads with zeros, copyOfRange gives exactly the elements from..to-1 and an empty array for a range outside the array, equals holds exactly for equal length and elements, fill and fillByIndex set exactly the named elements, hashCode is the polynomial hash 31*h+e (0 for an empty array), and the sources are unchanged. '
     'On an array sorted in the searched range, binarySearch, binarySearchByKey and binarySearchByIndex return the first position of the key in the range and -1 when it is absent. '
     'sort orders the array or the given range ascending, keeping the elements and everything outside the range.',
     'all arrays of any length of int, long, char, byte elements, all indices and keys', 'Tests use one or two small arrays; empty arrays, ranges at the ends, absent and repeated keys are not covered.',
     ['library/Java/Util/Arrays/Arrays.hpp', 'library/Kernel/Java.hpp'], [('range arithmetic, element loops, binary search with a left bias', 'Arrays::copyOf, copyOfRange, binarySearchByIndex, fillByIndex, quickSort')],
     ['return value', 'elements of the array'], note='sort is bounded (arrays of up to 4 elements, ranges in arrays of up to 3).')
prop('P17', 'Random is the documented linear congruential generator',
     'For every seed and state: construction and setSeed scramble the seed as documented, each next(bits) advances the 48-bit state by s*0x5DEECE66D+11 and returns its high bits, copies continue the same sequence independently, so equal seeds give equal sequences. '
     'nextInt, nextLong, nextBoolean, nextFloat and nextDouble are the documented functions of the states, nextFloat and nextDouble lie in [0, 1), and nextInt(bound) lies in [0, bound), is free of bias from the incomplete last interval, and rejects exactly the bounds that are not positive. '
     'nextBytes fills the array it is given without changing its length and nextGaussian returns a kept second value exactly once.',
     'all 2^48 states, all bounds, all array lengths', 'Tests print values or check ranges of single draws; particular states and bounds (powers of two, near 2^31, values in the rejected interval) decide.',
     ['library/Java/Util/Random/Random.cpp', 'library/Java/Util/Random/Random.hpp'], [('compare-and-exchange loop over the seed, rejection loop', 'Random::next, nextInt(int), nextBytes, setSeed')],
     ['return value', 'state of the generator', 'InterruptedException'], over=('inputs', 'histories'))
