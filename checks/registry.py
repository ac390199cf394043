"""The properties with a check: obligations, and what the evidence says about them."""
from checks import events, container, csvcol, pmc, text, objects, tables, own

ASSUMPTIONS = [
    'structures of the log lie inside the file and do not overlap; records are long enough for the fields their own '
    'size fields announce (truncated and hostile files are outside the properties)',
    'a field outside the fixed context (class, operation, pointer size, string encoding, stack depth) is unconstrained',
    'loops are followed to the bound K and longer iterations are left out of the obligation',
    'string readers recognised by their own contract are summarised (decided by P18)',
    'the models of the standard library and of six/construct in pva/ describe the installed versions',
]


TECHNIQUE = 'abstract interpretation of the source to gated value graphs, compared with the graphs of a reference model'
NOTE = 'Static: the syntax trees of the package are interpreted abstractly (symbolic file bytes, merged paths), never executed. ' \
       '"proved" obligations have identical normal forms on both sides; "unrefuted" ones differ syntactically but agree on all ' \
       'sampled valuations of the derived graphs. Bounded loops (K iterations), table sizes as listed, well-formed files.'


def P(jobs, explain, **kw):
    return dict(jobs=jobs, explain=explain, **kw)


EV = 'Each context fixes the shape of one event of a symbolic log; the abstract value of every compared slot of the ' \
     'returned event, as a gated value graph over the file bytes, is compared with that of the reference model. '

PROPS = {
    'P05': P(events.j_common, EV + 'Slots: the fields every event has, its frames and its process.'),
    'P06': P(events.j_window, EV + 'Contexts vary stack depth, the stack option and the presence of extra detail data.'),
    'P07': P(events.j_options, 'The reader is analysed twice with different options and the outcomes compared with each other.'),
    'P08': P(events.j_fs_names, EV + 'Slots: operation name and path, for every file operation and sub-operation.'),
    'P09': P(events.j_create, EV + 'Slots: detail and category of CreateFile.'),
    'P10': P(events.j_rw, EV + 'Slots: detail and category of ReadFile and WriteFile.'),
    'P11': P(events.j_dir, EV + 'Slots: all of directory enumeration and notification.'),
    'P12': P(events.j_ioctl, EV + 'Slots: detail and category of control operations.'),
    'P13': P(events.j_meta, EV + 'Slots: detail and category of the other file operations.'),
    'P14': P(events.j_reg_open, EV + 'Slots: path, detail and category of RegOpenKey and RegCreateKey.'),
    'P15': P(events.j_reg_key, EV + 'Slots: path, detail and category of RegQueryKey and RegEnumKey.'),
    'P16': P(events.j_reg_value, EV + 'Slots: path, detail and category of RegQueryValue and RegEnumValue.'),
    'P17': P(events.j_reg_rest, EV + 'Slots: path, detail and category of the other registry operations.'),
    'P18': P(text.j_text, 'Every string reader is compared with the rule of its encoding on all contents of each small size, and the texts of tables and events are followed byte by byte.'),
    'P19': P(events.j_process, EV + 'Slots: operation, path and detail of process and thread events.'),
    'P04': P(events.j_network, EV + 'Slots: operation, path and detail of network events, with host and port tables.'),
    'P21': P(events.j_unknown, EV + 'Contexts reach codes that have no name.'),
    'P28': P(events.j_dispatch, EV + 'Contexts enumerate every class and operation code and the ones just outside.'),
    'P01': P(container.j_header, 'The reader is constructed on a symbolic header; every field it exposes is compared with the model.'),
    'P02': P(container.j_refusal, 'Guards under which construction raises, and what it raises, compared with the model.'),
    'P03': P(container.j_tables, 'Processes, modules and strings of symbolic tables, slot by slot.'),
    'P22': P(container.j_history, 'Two or three events of symbolic contents are read in different orders by one reader; the outcomes are compared.'),
    'P23': P(container.j_protocol, 'The access protocol of readers is run by the analysis on logs of fixed size with symbolic index values.'),
    'P29': P(container.j_read_all, 'The whole-log reader, with the state of the file object tracked on every exit.'),
    'P24': P(csvcol.j_pure, 'The heap reachable from an event before and after rendering, and two renderings, compared.'),
    'P25': P(csvcol.j_columns, 'Every column of a symbolic event compared with the model.'),
    'P26': P(csvcol.j_detail, 'The detail column for symbolic detail values compared with the model.'),
    'P30': P(pmc.j_build, 'The writer is analysed on options with symbolic values; the bytes written, as a graph, are compared with the model.'),
    'P31': P(pmc.j_parse, 'The reader is analysed on files of symbolic record data; the mapping read is compared with the model.'),
    'P32': P(pmc.j_trip, 'Writer and reader are analysed one after the other on symbolic values; the result is compared with what was written.'),
    'P33': P(pmc.j_rules, 'The constructor of rules is analysed for every member, code and name and for symbolic ones.'),
    'P34': P(pmc.j_sizes, 'The reader is analysed on records whose stored sizes are symbolic; outside the right value it has to raise.'),
    'P35': P(pmc.j_unknown, 'Reader and writer are analysed on a record of an unknown option with symbolic data.'),
    'P36': P(pmc.j_font, 'Each font attribute read and each byte range written is compared with the documented field.'),
    'P37': P(pmc.j_types, 'The writer is analysed on symbolic values of every other kind; each has to raise.'),
    'P38': P(pmc.j_forms, 'Stream and bytes forms are analysed on the same symbolic configuration and compared with each other.'),
    'P27': P(objects.j_eq, 'Equality, inequality and hashing are analysed on pairs of symbolic values of each kind.'),
    'P39': P(objects.j_date, 'The column of dates is analysed on symbolic times and compared with the date model.'),
    'P20': P(tables.j_tables, 'Every enumeration, literal table and case distinction of the package is enumerated from the syntax trees.',
             level='other', technique='lint over the syntax trees: enumerations, literal tables and case distinctions, keys resolved to values',
             note='Static lint: complete for literal tables, enumerations and if/elif chains on one name; tables computed at import are not seen.', assumptions=['tables are written as literals, enumerations or case distinctions'], rule='no two entries of one table have the same key (after resolving constants and members) and different meanings'),
    'P40': P(events.j_masks, 'Single entries of the detail column (access masks, options, attributes, sharing, flags, filters, protections), for every value of the mask, compared with the model.'),
    'P46': P(own.j_results, 'Results are changed by a symbolic caller and asked for again; the second results are compared with those of an untouched run.'),
    'P47': P(own.j_writing, 'The writer is analysed twice in a row on one symbolic configuration, and the configuration viewed afterwards.'),
    'P48': P(own.j_streams, 'The abstract stream is inspected on every normal and failing exit of every entry point.'),
    'P49': P(own.j_spelled, 'The text forms of symbolic objects are compared with the model.'),
}
