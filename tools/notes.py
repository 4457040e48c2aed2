"""Technique and level notes per property for MANIFEST.json."""
TR = 'TLA+ trace validation with TLC: every recorded execution of the real code is judged against '
DEFAULT = (TR + 'the Reader specification (spec/Inflate.tla, InflateTrace, InflateEvents)',
           'Bounded: inputs are generated (structured corpora, mutations, enumerations of small bit strings), not exhaustive. Trusts TLC, the Go toolchain and, for inputs too big for bit-level TLC evaluation, a Go transliteration of the specification that is itself compared with it on every small input.')
W = (TR + 'the Writer contract (spec/WriterApi.tla, WriterTrace) and, bit by bit, the format specification (DeflateTrace); call sequences are generated by TLC from spec/WriterGen.tla',
     'Bounded: all call sequences up to a length from the specification x sampled configurations, data and faults. Big outputs are decoded by a Go transliteration of the format specification that is compared with it on small ones.')
RW = (TR + 'the Reader and Writer specifications', DEFAULT[1])
CR = ('TLA+ linearizability check with TLC (spec/ReaderLin.tla against spec/ReaderApi.tla) of every distinct history that a controlled scheduler produces from the real Reader',
      'Bounded programs; schedules explored depth-first by preemption bound plus random ones, by replacing package sync in a build overlay; if the code under test uses synchronisation the scheduler does not control, uncontrolled executions under the race detector only. Trusts the scheduler harness and TLC.')
CW = ('TLA+ linearizability check with TLC (spec/WriterLin.tla against spec/WriterApi.tla) of every distinct history that a controlled scheduler produces from the real Writer',
      CR[1])
NOTES = {p: W for p in ['P01', 'P02', 'P11', 'P12', 'P13', 'P14', 'P15', 'P23']}
NOTES.update({p: RW for p in ['P10', 'P19', 'P20', 'P21', 'P22']})
NOTES.update({'P16': CR, 'P17': CR, 'P18': CW,
              'P07': (DEFAULT[0] + '; plus linearizability of Read histories under a controlled scheduler (spec/ReaderLin.tla)', CR[1])})

NOTES.update({
    'P24': (TR + 'spec/Config.tla (ConfigTrace): options in effect after every New and Reset, their effect on output and accepted input; histories are generated by TLC from spec/ConfigGen.tla',
            'Bounded: histories of up to three New/Reset calls with up to three options, all of them from the specification, a sample replayed in the quick tier. Trusts TLC and the Go toolchain.'),
    'P25': (TR + 'spec/Enums.tla (EnumTrace), whose tables are model-checked for well-definedness (EnumsModel)',
            'All enumeration values; strings are generated (all short ones over an alphabet, case variations, mutations of names, random). Trusts TLC and the Go toolchain.'),
    'P26': (TR + 'the definitions of CRC-32 and Adler-32 in spec/ChecksumTrace.tla, on amd64 (accelerated) and 386 (generic) builds',
            'Bounded lengths and generated contents, alignments and divisions; long inputs are judged through a Go transliteration of the definition which TLC compares with its own on short ones. Trusts TLC and the Go toolchain.'),
})
NOTES['P27'] = (TR + 'spec/Cli.tla (CliTrace) and spec/Config.tla; command lines are generated by TLC from spec/CliGen.tla and run with the real gzip binary',
                'Bounded: all command lines of up to two option tokens and samples of longer ones; valid and damaged inputs; unreadable input, full and broken output. Output and damaged inputs are decoded by the Go transliteration of the format specification. Trusts TLC, the Go toolchain and that transliteration.')
NOTES['P28'] = (TR + 'the Reader and Writer specifications, with other instances at work in the sources, sinks and tracers of each execution, and in parallel under the race detector; design model spec/Instances.tla',
                'Bounded: generated inputs and call sequences; the nested instances act at every call of a source, sink or tracer; parallel executions are sampled, with data races detected by the race detector. Trusts TLC, the Go toolchain and the Go transliteration of the specification for large cases.')
NOTES['P16'] = (CR[0] + '; plus trace validation of Readers that were used with other input and options and then Reset, against the Reader specification (spec/Inflate.tla)', CR[1])
NOTES['P29'] = NOTES.get('P04', DEFAULT)
NOTES['P30'] = (TR + 'spec/AuxTrace.tla, in which each tracer is a state machine driven by the events, and spec/Extra.tla, whose Parse and Enc are model-checked to be inverses (ExtraModel)',
                'Bounded: every string over three byte values up to a length for ExtraData, random longer ones; generated streams and call sequences for the tracers. Log lines are read by a decoder that shares no code with the package. Trusts TLC, the Go toolchain and zerolog.')
