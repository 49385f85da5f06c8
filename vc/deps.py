"""Which properties rest on which contracts.

A property is a postcondition, an invariant or a lemma over the contracts of the functions that implement it; those
contracts are in turn proved from the contracts of the functions they call. So the obligations of a callee belong to
every property whose argument uses that callee. (spec name pattern, properties one of which the obligation has, properties
added)."""
import re

_RELOC = r'realign_up|realign_down|len_after_realign_up|Provider>::(try_reserve|shrink_capacity)|UnsizedVec::(try_)?(reserve|shrink)'
RULES = [(re.compile(p), frozenset(need.split()), frozenset(add.split())) for p, need, add in [
    # size, alignment and metadata helpers under everything that computes an offset or a layout
    (r'^<?Valid(Size|SizeUnaligned|Align)\b|^decompose$|as Aligned>::ALIGN|DANGLING_THIN|as Size>|^<(usize|NonZeroUsize) as From>', 'C14', 'C01 C02 C03 C05 C06 C07'),
    (r'^(ValidAlign|ValidSize|ValidSizeUnaligned)::of_val$|^decompose$', 'C14', 'C10 C12 C13'),
    (r'as Align>::new$', 'C14', 'C05 C07'),
    (r'^<.*as Metadata(Remainder|FromSize)>', 'C02', 'C01 C09'),
    # relocation keeps the sequence, the values and the drop obligations
    (_RELOC, 'C02', 'C01 C04'),
    (r'realign_up|len_after_realign_up', 'C02 C05', 'C07'),
    # start and end of an element
    (r'start_offset_of_unchecked|get_unchecked_raw|UnsizedVec::get|as Index(Mut)?>', 'C01', 'C09'),
    (r'start_offset_of_unchecked', 'C01', 'C04'),
    (r'::(un)?aligned_byte_len$|VecInner::byte_len$', 'C01', 'C05 C06 C02'),
    # elementwise traits go through the iterators and the builders
    (r'(Unaligned|Aligned)Iter as|UnsizedIter as|Provider>::iter$|UnsizedVec::(iter|len)$', 'C09 C01', 'C11'),
    (r'UnsizedVec::(push|push_with|with_capacity|new)$', 'C01', 'C11 C15'),
    # moving an element out or in reads and writes memory that holds exactly that element
    (r'as Drop>::drop$|Provider>::(push|pop|insert|remove)|UnsizedVec::(push|pop|insert|remove)', 'C03', 'C04'),
    (r'as Drop>::drop$|Provider>::(pop|remove)|Provider>::(push_with|insert_with)', 'C03', 'C08'),
    # conversions keep every value and the buffer
    (r'as From>::from$|from_sized|UnsizedVec::unsize$', 'C10', 'C01 C04'),
    # emplacables
    (r'^Emplac(able|er)::(from_fn|into_fn)$|^Emplacable::unsize$', 'C12', 'C15 C01'),
    (r'^with_emplacable|_unsize$|^push_to_unsized_vec|\(vc/probe\)$', 'C12 C04 C01 C03', 'C15'),
    (r'^Emplacable of T$|^Emplacable from T$', 'C12', 'C15'),
]]

def close(name, props):
    out = set(props)
    for rx, need, add in RULES:
        if need & set(props) and rx.search(name):
            out |= add
    return sorted(out)
