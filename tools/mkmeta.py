"""Writes properties.jsonl and MANIFEST.json from the one table below (run by hand; the results are committed)."""
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)

PK = 'procmon_parser/'
DET = PK + 'stream_logs_detail_format.py'
FMT = PK + 'stream_logs_format.py'
LOGS = PK + 'logs.py'
INIT = PK + '__init__.py'
CONSTS = PK + 'consts.py'
HELP = PK + 'stream_helper.py'
CONF = PK + 'configuration.py'
CFMT = PK + 'configuration_format.py'
CHLP = PK + 'construct_helper.py'

TESTS_LOG = 'The tests decode two recorded logs and compare them with exported CSV columns; '

# id, title, statement, over, text, why, files, mechanisms[(name, where)], observe, technique/na
PROPS = [
('P01', 'Header and system details mirror the log header',
 'Every header field the reader exposes is the little-endian value stored at its documented place in the file header, and the summary of the recording machine (name, root, bitness, OS name and version, processors, memory) restates exactly those fields. The number of events reported for the log is the header\'s own count.',
 ['inputs'], 'all header contents, both bitnesses, every named Windows version',
 TESTS_LOG + 'both come from one kind of machine, so most header fields have a single sampled value and an exchanged or shifted field that the tests do not print passes.',
 [FMT, LOGS], [('header reader', FMT + ' Header'), ('system summary', LOGS + ' PMLStructReader.system_details')], ['reader header object', 'system_details()', 'len(reader)']),
('P02', 'Corrupt or unsupported logs are refused before any event is read',
 'Opening a file whose signature is not the one of Procmon logs, or whose format version is not 9, or whose header says that it was not closed (a table offset that is zero) or has another size than documented, fails: with the library\'s own log error, or NotImplementedError for another version. Any other well-formed file opens.',
 ['inputs'], 'every signature and version value, both bitnesses, both reader entry points',
 'Tests only open good files; the refusal branch is never executed.',
 [FMT], [('signature and version test', FMT + ' PMLStreamReader.__init__')], ['exception of the constructor']),
('P03', 'Strings, processes and modules are decoded exactly',
 'Each process and module the reader lists has exactly the attributes its table record stores, with text fields resolved through the string table and absent references giving the empty text. The process mapping has one entry per process record, keyed by its index, with modules in file order. A log in which a record refers to a text that the table does not hold fails to open; no other text is put in its place.',
 ['inputs'], 'all table contents for tables up to the loop bound, both bitnesses',
 TESTS_LOG + 'only a handful of process fields are compared and module fields not at all.',
 [FMT], [('strings table', FMT + ' StringsTable'), ('process table', FMT + ' ProcessTable')], ['processes()', 'event.process']),
('P04', 'Network events are decoded exactly, names resolved through the tables',
 'A network event names the operation with its protocol, its path is "source -> destination" with each end resolved through the host and port tables or rendered numerically when absent, and its details hold the length and the key/value text pairs of the record.',
 ['inputs'], 'all record contents, address families, protocols and table contents up to the loop bound',
 TESTS_LOG + 'the recorded addresses cover few combinations of family, protocol and table presence.',
 [DET, FMT], [('network decoding', DET + ' get_network_event_details'), ('host and port lookup', FMT + ' PMLStreamReader')], ['event.operation', 'event.path', 'event.details']),
('P05', 'Fields common to every event are decoded exactly',
 'For every event the thread id, class, duration, time stamp, result code, call stack and process are those of its record, whatever class the event has. The call stack holds every recorded frame in order, at the width of the recording machine\'s pointers.',
 ['inputs'], 'all record contents, both pointer widths, stack depths up to the loop bound',
 TESTS_LOG + 'frames are not compared at all and a 32-bit recording is sampled once.',
 [FMT], [('event record reader', FMT + ' read_event')], ['event attributes']),
('P06', 'Event details come from the event\'s own bytes wherever they lie',
 'The detail block of an event starts right after its frames and the extra detail block at the recorded offset, so neither the number of frames, nor whether frames are requested, nor other extra data changes what is decoded from them.',
 ['inputs', 'configurations'], 'stack depths, stack option, presence of extra detail, all contents',
 'A recorded log fixes the combination of depth and option for each event; the tests never read the same events both ways.',
 [FMT], [('positioning of the streams', FMT + ' read_event')], ['event.details', 'event.path']),
('P07', 'Reader options only leave out what they name',
 'Turning off call stacks empties the call stack of every event, however deep, and changes nothing else. Turning off details changes no field but the details, category and the operation or path text that details refine.',
 ['inputs', 'configurations'], 'every operation, all contents, both options',
 'The tests use one setting only.',
 [FMT, DET, INIT], [('options', FMT + ' read_event'), ('option plumbing', INIT + ' ProcmonLogsReader')], ['all event attributes']),
('P08', 'File system operation names and paths are decoded exactly',
 'A file system event carries the name of its operation or, where the operation has named sub-operations, of its sub-operation, and the recorded path text in the recorded encoding.',
 ['inputs'], 'every operation and sub-operation code, both text encodings, all paths',
 TESTS_LOG + 'many sub-operations never occur in them.',
 [DET, CONSTS], [('sub-operation table', DET + ' get_filesystem_event_details'), ('text descriptor', DET + ' read_detail_string_info')], ['event.operation', 'event.path']),
('P09', 'CreateFile details are decoded exactly',
 'A CreateFile event reports desired access, disposition, options, attributes, share mode, allocation size, impersonating user and open result from its record, with the fields that do not apply shown as such and the category following the access.',
 ['inputs'], 'all record contents, both pointer widths and text encodings, with and without extra data',
 TESTS_LOG + 'impersonation, the failure branches and the 32-bit layout are hardly sampled (the 32-bit allocation size was wrong).',
 [DET, CONSTS], [('CreateFile decoding', DET + ' get_filesystem_create_file_details')], ['event.details', 'event.category']),
('P10', 'ReadFile and WriteFile details are decoded exactly',
 'Read and write events report offset, length (the actual one when recorded), I/O flags and priority from the record, and the matching category.',
 ['inputs'], 'all record contents, widths and encodings',
 TESTS_LOG + 'large offsets, rare flags and priorities do not occur.',
 [DET, CONSTS], [('read/write decoding', DET + ' get_filesystem_read_write_file_details')], ['event.details', 'event.category']),
('P11', 'Directory enumeration and notification are decoded exactly',
 'A directory query reports its pattern, information class and the listed names in order, numbered as listed; a change notification reports its filter. The category of both is metadata reading.',
 ['inputs'], 'every information class, all contents, listings up to the loop bound',
 TESTS_LOG + 'only a few information classes occur (an empty path and unnamed classes failed).',
 [DET], [('directory decoding', DET + ' get_filesystem_query_directory_details'), ('notification', DET + ' get_filesystem_notify_change_directory_details')], ['event.details', 'event.path', 'event.operation']),
('P12', 'Control operations are decoded exactly',
 'A file system or device control event reports the name of its control code, or its numeric parts when it has no name, the buffer lengths, and the decoded fields for the codes that have them.',
 ['inputs'], 'every control code, all contents, widths and encodings',
 TESTS_LOG + 'few of the control codes occur (one of the decoded codes read the wrong buffer).',
 [DET, CONSTS], [('control decoding', DET + ' get_filesystem_ioctl_details'), ('control code names', CONSTS + ' get_ioctl_name')], ['event.details', 'event.category']),
('P13', 'Remaining file system details are decoded exactly',
 'Mapping, disposition, metadata, lock and plug-and-play events report the details and category their records hold, and events without details report none.',
 ['inputs'], 'every remaining operation, all contents, widths and encodings',
 TESTS_LOG + 'rarely used operations and values do not occur.',
 [DET, CONSTS], [('mapping', DET + ' get_filesystem_create_file_mapping'), ('disposition', DET + ' get_filesystem_setdispositioninformation_details')], ['event.details', 'event.category']),
('P14', 'Registry opening and creating is decoded exactly',
 'Opening or creating a key reports the key path, the desired access by name, and, when recorded, the granted access and disposition.',
 ['inputs'], 'all contents, encodings, with and without extra data',
 TESTS_LOG + 'only common masks occur.',
 [DET, CONSTS], [('open/create decoding', DET + ' get_registry_open_or_create_key_extra_details')], ['event.path', 'event.details', 'event.category']),
('P15', 'Registry key queries are decoded exactly',
 'Querying or enumerating a key reports index, information class, buffer length and the information of that class.',
 ['inputs'], 'every information class, all contents, encodings, with and without extra data',
 TESTS_LOG + 'a minority of the information classes occurs.',
 [DET], [('key query decoding', DET + ' get_registry_query_or_enum_key_extra_details')], ['event.path', 'event.details', 'event.category']),
('P16', 'Registry value queries are decoded exactly',
 'Querying or enumerating a value reports index, information class, buffer length, value name, type and data according to the type.',
 ['inputs'], 'every class and value type, all contents, encodings, with and without extra data',
 TESTS_LOG + 'rare value types and classes do not occur.',
 [DET], [('value query decoding', DET + ' get_registry_query_or_enum_value_extra_details'), ('value data', DET + ' read_registry_data')], ['event.path', 'event.details', 'event.category']),
('P17', 'Remaining registry details are decoded exactly',
 'Setting values or key information, loading, renaming, deleting and closing keys report the path, details and category their records hold.',
 ['inputs'], 'every remaining registry operation, all contents, encodings',
 TESTS_LOG + 'several of these operations never occur (one reported nothing).',
 [DET], [('set value', DET + ' get_registry_set_value_extra_details'), ('dispatch', DET + ' get_registry_event_details')], ['event.path', 'event.details', 'event.category']),
('P18', 'Text in the log is decoded by one rule per encoding',
 'UTF-16 text ends at its first terminator or at its recorded size, never loses characters before that, and never keeps anything after it; counted text has exactly the recorded number of characters in the recorded encoding; multi-text lists end at the first empty entry.',
 ['inputs'], 'all byte contents, all sizes up to the exact-window bound',
 'Texts in the tests are well terminated and of even size; the byte-level boundary cases do not occur.',
 [HELP, DET, FMT], [('UTF-16 reader', HELP + ' read_utf16'), ('multi-text reader', HELP + ' read_utf16_multisz'), ('counted text', DET + ' read_detail_string')], ['every text attribute of events, processes and modules']),
('P19', 'Process and thread details are decoded exactly',
 'Process creation, start, exit, thread and image events report ids, command line, paths, environment, exit status and CPU times from their records.',
 ['inputs'], 'all contents, both pointer widths, environments up to the loop bound',
 TESTS_LOG + 'environment and counters vary little.',
 [DET], [('process decoding', DET + ' get_process_event_details')], ['event.operation', 'event.path', 'event.details']),
('P20', 'Code tables are functions: no code means two things',
 'Within every enumeration and table of names a code has one name and a name stands for one code (apart from the few statuses, attributes and registry types documented to share one), so that looking a code up and looking a name up are inverse to each other. No entry of a table is silently overridden by another of the same key.',
 ['programs'], 'every entry of every enumeration and every literal table of the package',
 'A repeated code or key is legal Python and silently drops an entry; no test enumerates the tables.',
 [CONSTS, DET], [('enumerations and tables', CONSTS)], ['names shown for codes', 'codes written for names']),
('P21', 'Codes without a name degrade and never fail',
 'An event with a sub-operation, information class, value type or similar code that has no name is still decoded: the code is shown as unknown and the remaining fields are intact.',
 ['inputs'], 'every unnamed code of every coded field',
 'Recorded logs hold only codes that exist on the recording machines.',
 [DET, CONSTS], [('fallback names', DET + ' get_enum_name_or')], ['event.operation', 'event.details']),
('P22', 'Events are independent of what was read before',
 'The event at a position is the same whether it is read first, last, repeatedly or after any other events, and reading never changes events already handed out.',
 ['histories'], 'pairs and triples of reads of every event shape in every order, all contents',
 'The tests read each log once from front to back.',
 [FMT, INIT], [('absolute positioning', FMT + ' read_event')], ['events returned by indexing']),
('P23', 'Iteration, length, indexing and slicing describe one sequence',
 'A reader behaves as one fixed sequence of events: iterating yields exactly what indexing from zero to length gives, negative indices count from the end, slices give the matching lists, and positions outside the sequence are refused.',
 ['inputs', 'histories'], 'all index values and slice bounds for logs up to the bound, partial iterations',
 'The tests iterate once; negative indices, slices, repeated and mixed iteration are not tried.',
 [INIT, LOGS], [('iterator', INIT + ' ProcmonLogsReader.__next__'), ('indexing', LOGS + ' PMLStructReader.__getitem__')], ['for, len, [] and slices on a reader']),
('P24', 'Rendering an event changes nothing and repeats exactly',
 'Producing the CSV columns of an event leaves the event and everything shared with it unchanged, and producing them again gives the same columns.',
 ['histories'], 'every event shape, all contents',
 'The tests render every event once and do not look at it afterwards.',
 [LOGS], [('CSV rendering', LOGS + ' Event.get_compatible_csv_info')], ['event attributes after rendering']),
('P25', 'CSV columns restate the event',
 'Every CSV column other than the detail text is the stated rendering of the event or process attribute it is named after, for every class of event, with times relative to the given first event.',
 ['inputs'], 'all attribute values for representative operations of every class',
 TESTS_LOG + 'some columns are skipped and columns that always hold the same value are not distinguished.',
 [LOGS, CONSTS], [('CSV rendering', LOGS + ' Event.get_compatible_csv_info')], ['get_compatible_csv_info()']),
('P26', 'The CSV detail column lists every detail in order',
 'The detail column shows every detail of the event, in order, as "name: value", with the documented renderings for the operations that have their own, and leaves out nothing else.',
 ['inputs'], 'every operation with its own rendering and the general one, all detail values',
 TESTS_LOG + 'the values there exercise few of the renderings.',
 [LOGS], [('detail rendering', LOGS + ' Event._get_compatible_csv_detail_column')], ['get_compatible_csv_info()["Detail"]']),
('P27', 'Equality and hashing of records are coherent',
 'Two rules, modules, processes or events are equal exactly when all the values they were made from are equal; inequality is the negation of equality; equal ones hash alike; and they equal no object of another kind.',
 ['inputs'], 'all attribute values of all four kinds',
 'Tests compare a few lists of equal rules only.',
 [CONF, LOGS], [('rule comparison', CONF + ' Rule.__eq__'), ('process comparison', LOGS + ' Process.__eq__'), ('event comparison', LOGS + ' Event.__eq__')], ['==, != and hash()']),
('P28', 'Every class and operation code is decoded or refused, nothing else',
 'Every defined combination of event class and operation decodes to the documented name and shape, and a class or operation code outside the defined ones fails rather than being decoded as another.',
 ['inputs'], 'every class and operation code and those just outside',
 'Codes absent from the two recorded logs are never decoded.',
 [DET, FMT, CONSTS], [('dispatch', DET + ' get_event_details')], ['event or exception']),
('P29', 'Reading a whole log loses nothing and leaves no file open',
 'Reading a log at once gives exactly the events that reading it one by one gives, in order, together with the same processes and system details, and a file opened for it is closed on success and failure alike; a path may be given as text, as bytes or as a path object, and an open file that the caller passes in stays open.',
 ['inputs', 'fault_sequences'], 'logs up to the loop bound, all contents, by path and by open file, success and refusal',
 'The convenience reader has no test.',
 [INIT], [('whole-log reader', INIT + ' read_all_events_from_pml')], ['returned events', 'state of the file']),
('P30', 'Configuration files are written in the documented layout',
 'Writing a configuration produces, for every option in order, exactly one record of the documented layout: sizes, offsets, name and data in the encoding of that option.',
 ['inputs'], 'every known option with all values, rule lists and column lists up to the loop bound',
 'The tests compare one configuration with one recorded file.',
 [CFMT, CHLP], [('record layout', CFMT + ' RecordStruct'), ('writer', CFMT + ' dump_configuration')], ['bytes written']),
('P31', 'Configuration files are read as the documented layout says',
 'Reading a configuration gives one entry per record, under the recorded name, with the value the record\'s data means for that option.',
 ['inputs'], 'every known option with all data, rule lists and column lists up to the loop bound',
 'The tests read one recorded file.',
 [CFMT, CHLP], [('record layout', CFMT + ' RecordStruct'), ('reader', CFMT + ' load_configuration')], ['loaded mapping']),
('P32', 'A configuration survives being written and read back',
 'Reading what was written gives an equal configuration, option by option, in the same order, for every configuration the library can write.',
 ['inputs'], 'every known option with all values, lists up to the loop bound',
 'The tests do this for one configuration.',
 [CFMT, CHLP], [('record layout', CFMT + ' RecordStruct')], ['loads(dumps(c))']),
('P33', 'Rules accept exactly the valid parts and mean the same however given',
 'A rule can be made from members, codes or names in any letter case of its column, relation and action, with the same result, and anything else, including a value that is not text, is refused when the rule is made.',
 ['inputs'], 'every member, code and name of the three enumerations, all values, and inputs outside them',
 'Tests construct a handful of rules.',
 [CONF], [('rule construction', CONF + ' Rule.__init__')], ['Rule(...)']),
('P34', 'A record whose sizes contradict each other is refused',
 'When the sizes or offsets stored in a configuration record do not agree with the record\'s content, reading it fails with an error instead of returning a value.',
 ['inputs'], 'all combinations of size and offset fields',
 'Tests read well-formed records only.',
 [CFMT, CHLP], [('size checks', CHLP + ' CheckCustom')], ['exception of the loader']),
('P35', 'Unknown options pass through unchanged',
 'An option the library does not know is read as its raw bytes and written back as exactly those bytes under the same name.',
 ['inputs'], 'all names outside the known ones, all data up to the bound',
 'Recorded configurations hold known options only.',
 [CFMT], [('default case', CFMT + ' RecordStruct')], ['loads and dumps']),
('P36', 'Every font field keeps its place',
 'Each of the fourteen attributes of a font option is read from and written to its own documented field, including the face name.',
 ['inputs'], 'all font field values',
 'The font fields of the recorded configuration are mostly zero, so exchanged fields are invisible.',
 [CFMT, CONF], [('font mapping', CFMT + ' FontStructAdapter')], ['Font attributes', 'bytes written']),
('P37', 'Ill-typed option values are refused when written',
 'Writing a text option whose value is not text, a numeric option whose value is not a number of its width, or a rule option whose value does not hold rules, fails with an error; it never writes a record with other contents.',
 ['inputs'], 'every known option with values of the other kinds',
 'The tests write well-typed configurations only.',
 [CFMT, CHLP], [('text check', CHLP + ' UnicodeStringAdapter'), ('typed fields', CFMT + ' RecordStruct')], ['exception of the writer']),
('P38', 'Stream and bytes forms of the configuration functions agree',
 'Loading from bytes equals loading from a stream of those bytes, and dumping to bytes equals what is dumped to a stream, for every configuration.',
 ['inputs'], 'all configurations up to the bound',
 'The tests use one form for each direction.',
 [CFMT], [('wrappers', CFMT + ' loads_configuration, dumps_configuration')], ['both results']),
('P39', 'Event dates denote the recorded instant',
 'The date of an event is the instant its time stamp denotes, to the microsecond, in UTC or in local time as asked, and there is none without a time stamp.',
 ['inputs'], 'all time stamps the calendar can hold',
 'No test calls it.',
 [LOGS], [('date', LOGS + ' Event.date')], ['Event.date()']),
('P40', 'Access and flag masks are rendered bit by bit',
 'A mask is shown as the names of the bits it has, in the documented order, a name that stands for several bits replacing the names of those bits; generic access rights are expanded to the rights they grant. A mask without any named bit is shown in the documented form for that mask ("n/a", "None", or "None" and the value in hexadecimal).',
 ['inputs'], 'every value of every 32-bit mask',
 TESTS_LOG + 'they contain a few dozen of the four thousand million values of each mask.',
 [CONSTS], [('mask rendering', CONSTS + ' _get_mask_string'), ('access rendering', CONSTS + ' _get_access_mask_string')], ['event.details', 'CSV detail column']),
('P46', 'Results belong to the caller',
 'Events, process lists, system details and configurations are new values on every request: whatever the caller does to one (changing details, paths, stack traces, lists, rules, fonts) never shows in an event read again, in a process list or summary asked for again, in what another reader reports, in a configuration loaded again, or in the defaults of an object made later.',
 ['inputs', 'history'], 'all event, table and configuration contents of the contexts; requests before and after the change',
 'Tests read each event once and throw the result away; a cache or a shared mutable default is invisible to them.',
 [LOGS, FMT, CONF, CFMT], [('event construction', FMT + ' PMLStreamReader.get_event_at_offset'), ('defaults', CONF + ' Rule, Font')], ['event.details', 'processes()', 'loads_configuration()']),
('P47', 'Writing a configuration changes nothing and can be repeated',
 'After dump_configuration or dumps_configuration the mapping given, its rules, fonts and lists are as they were, and writing it a second time gives the same bytes.',
 ['inputs', 'history'], 'all option values of the contexts of P30',
 'Tests write one configuration once and do not look at it afterwards.',
 [CFMT, CHLP], [('writer', CFMT + ' dump_configuration')], ['the mapping after dumps_configuration()', 'second result']),
('P48', 'The caller\'s streams are left to the caller',
 'A log reader built on a stream and load_configuration never write to the stream and never close it, and dump_configuration never closes the stream it wrote to, also when they fail.',
 ['inputs', 'faults'], 'all logs and configurations of the contexts; normal and failing outcomes',
 'Tests use files of their own and let the interpreter close them.',
 [INIT, LOGS, FMT, CFMT], [('reader', LOGS + ' PMLReader'), ('configuration streams', CFMT + ' load_configuration, dump_configuration')], ['stream.closed', 'stream contents']),
('P49', 'Text forms of records restate their fields',
 'str() and repr() of rules, modules and processes and repr() of events restate the documented fields of the object in the documented order, whatever their values.',
 ['inputs'], 'all values of the fields',
 'Tests never print an object.',
 [CONF, LOGS], [('text forms', LOGS + ' Module, Process, Event'), ('rule text', CONF + ' Rule.__str__')], ['str(o)', 'repr(o)']),
]

NA = [
('P41', 'Truncated or hostile logs always end in an error, never in a hang',
 'Every finite file, however damaged, makes the reader either return events or fail, without looping without end.',
 ['inputs'], 'all byte strings', 'Tests read good files only.',
 [FMT, DET], [('loops driven by the file', DET)], ['termination'],
 'termination depends on values in the file that drive several loops (directory chains, string lists); no ranking argument over the source alone bounds them, and a bounded analysis cannot show termination'),
('P42', 'Memory stays proportional to the log',
 'Reading events one by one from a stream needs memory for the tables and one event, not for the log.',
 ['inputs'], 'all logs', 'Tests measure no memory.',
 [FMT, INIT], [('lazy reading', FMT + ' PMLStreamReader')], ['resident memory'],
 'a quantitative resource bound of the running interpreter, not a fact of the source that these analyses decide'),
('P43', 'Decoded events agree with what Procmon itself shows',
 'For every log, the decoded fields equal those Procmon displays for the same log.',
 ['inputs'], 'all logs Procmon can record', 'Tests compare two recordings.',
 [DET], [('decoding', DET)], ['CSV export of Procmon'],
 'the oracle is a closed program that is neither in the repository nor runnable here; P01-P28 decide agreement with the documented format instead'),
('P44', 'A reader may be shared between threads',
 'Concurrent reads of one reader return the events a sequential reader would.',
 ['schedules'], 'all interleavings', 'Tests are single-threaded.',
 [FMT], [('shared file position', FMT + ' read_event')], ['events'],
 'the library does not promise it: a reader keeps one file position, so the property is false by design and is not claimed'),
('P45', 'Local dates follow the machine\'s time zone rules',
 'Local times equal the operating system\'s conversion of the instant for every date, including changes of daylight saving.',
 ['inputs', 'configurations'], 'all time stamps and time zones', 'Tests run in one zone.',
 [LOGS], [('local date', LOGS + ' Event._strftime_date')], ['dates shown'],
 'the conversion is the operating system\'s zone database behind the standard library, outside the source analysed; P25 and P39 decide that it is asked for, and with which instant'),
]


def main():
    from checks import registry
    with open(os.path.join(HERE, 'properties.jsonl'), 'w', encoding='utf-8') as fh:
        for p in PROPS + [n[:9] + (n[9],) for n in NA]:
            pid, title, stmt, over, text, why, files, mech, obs = p[:9]
            fh.write(json.dumps({'id': pid, 'title': title, 'statement': stmt, 'quantifier': {'over': over, 'text': text},
                                 'why_tests_cant': why, 'anchors': {'files': files, 'mechanism': [{'name': a, 'where': b} for a, b in mech],
                                                                    'observe_at': obs, 'hook_needed': None}}) + '\n')
            assert len(title) <= 80, title
    checks, na = [], []
    for p in PROPS:
        s = registry.PROPS.get(p[0])
        if s is None:
            na.append({'property': p[0], 'reason': 'no static check built for it yet'})
            continue
        checks.append({'property': p[0], 'quick_cmd': 'python3 check.py ' + p[0], 'thorough_cmd': 'python3 check.py %s --thorough' % p[0],
                       'technique': s.get('technique', registry.TECHNIQUE), 'level': s.get('level', 'translation_validation'),
                       'level_note': s.get('note', registry.NOTE)})
    na += [{'property': n[0], 'reason': n[9]} for n in NA]
    with open(os.path.join(HERE, 'MANIFEST.json'), 'w', encoding='utf-8') as fh:
        json.dump({'version': 1, 'setup_cmd': 'python3 -m compileall -q pva checks ref check.py', 'checks': checks, 'not_applicable': na}, fh, indent=1)
        fh.write('\n')


if __name__ == '__main__':
    main()
