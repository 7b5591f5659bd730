"""The checks that are not recorded traces of bitfield operations."""
from . import accept, api, consts, env, flags, twin

CHECKS = {'P16': twin.check, 'P18': flags.check, 'P20': accept.check, 'P21': api.p21, 'P22': api.p22, 'P23': api.p23, 'P25': consts.check, 'P26': env.check, 'P27': accept.blame}

FLAG_TECH = 'TLA+ model checked with TLC; recorded conversions of real flag enums validated against the specification'
TRACE_TECH = 'TLA+ model checked with TLC; recorded executions of generated code validated against the specification'
API_TECH = 'TLA+ model checked with TLC; compiler probes of real declarations validated against the specification'
ABOUT = {
    'P16': (TRACE_TECH, 'spec/Props.tla P16 relates every call on an integer-backed layout to the call on its array-backed twin in the bounded model; '
            'generated declarations over u8 to u128 are compiled on the integer, the array and the boxed array, driven by the same random '
            'calls, every recording validated against spec/Trace.tla and every pair against spec/TwinTrace.tla.'),
    'P18': (FLAG_TECH, 'spec/Bitflag.tla is model checked over every flag enum of up to 2 (thorough: 3) variants on integers of up to '
            '3 bits (thorough: 4) in 2 or 3 bytes; generated enums over u8 to u128, with base, default or both, all endian settings, '
            'literal and constant values, are compiled and their conversions (all 256 inputs for u8, values, neighbours and '
            'byte-swapped values otherwise, at run time and in constants) accepted or rejected by TLC.'),
    'P20': (API_TECH, 'spec/Accept.tla states which declarations are coherent, once as a rule and once as a machine that reads the declaration; '
            'TLC shows both agree and that accepted declarations tile the backing, for every declaration of up to 2 (thorough: 3) fields over '
            'small alphabets. Generated valid declarations and single mutations of them (widths, totals, types, literals at their limits, '
            'arguments, accesses, names, enum values) are given to rustc, and TLC judges each verdict.'),
    'P21': (API_TECH, 'spec/Api.tla maps the arguments of a declaration to the set of its items; TLC checks independence of the arguments by '
            'changing one choice at a time on top of every pair (thorough: triple) of explicit arguments; the presence of every item is probed by compiling a use of it for generated combinations.'),
    'P22': (API_TECH, 'spec/Api.tla gives the defaults under a set of cargo features; the crate is built with 20 (thorough: 32) random feature sets, and '
            'the presence of every item is probed by the compiler for declarations with and without overriding arguments.'),
    'P23': (API_TECH, 'spec/Api.tla gives the accessors of a field and who can see them; TLC checks all accesses and visibilities; presence and visibility '
            'from four places (the same module, its parent, the crate, another crate) are probed by compiling uses in generated module trees.'),
    'P25': (TRACE_TECH, 'spec/Shape.tla gives size, alignment, derives, no_std and ABI facts of a type, model checked over all kinds of types and compared with '
            'facts measured on generated types; straight-line call chains that use every generated function are evaluated both as constants '
            'and at run time, and both recordings validated against spec/Trace.tla.'),
    'P26': (API_TECH, 'spec/Env.tla says what the surroundings of a declaration may change; TLC moves declarations through all combinations of editions, '
            'lint levels, places, neighbouring names and libraries, one aspect at a time. Generated bitfields and flag enums are compiled in random surroundings '
            '(four editions, no_std, module, function, macro, lists of neighbouring items) and TLC judges each verdict; calls of declarations among '
            'such neighbours are recorded and validated against spec/Trace.tla.'),
    'P27': (API_TECH, 'spec/Accept.tla defines the wrong parts of a declaration; TLC shows, for every declaration of up to 2 (thorough: 3) fields over small '
            'alphabets, that there are none exactly in coherent declarations and that the step-by-step reading stops at one. Declarations with one to three '
            'random faults are given to rustc, and TLC judges whether the part the error points at is one of the wrong ones.'),
}
