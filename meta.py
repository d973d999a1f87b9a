#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json: the list of properties, what
decides them, and what is not claimed.  (python3 meta.py)"""
import json
import os

HERE = os.path.dirname(os.path.abspath(__file__))
SIM = 'deterministic simulation with fault injection: '
TOOL = 'iwyu_tool.py'
FIX = 'fix_includes.py'

PROPERTIES = [
 dict(id='C01',
  title='iwyu_tool runs each selected command once and prints each report whole',
  statement='For every compilation database, selection of files and extra '
  'arguments, iwyu_tool analyses every selected entry exactly once, with that '
  'entry\'s own arguments and directory, and no other entry. Each analysis\'s '
  'output appears on standard output exactly once, complete and contiguous, '
  'never mixed with another\'s, however many run at once and in whatever '
  'order and pieces they write and finish.',
  over=['schedules', 'inputs', 'configurations'],
  text='all compilation databases, selections and output formats, all job '
  'counts and load limits, and all orders and timings in which children '
  'write, stall and exit',
  why='iwyu_tool_test.py replaces the process layer with instant fakes and '
  'samples single commands; it has no notion of children that overlap, stall '
  'or finish out of order, so it cannot reach lost, doubled or mixed output.',
  files=[TOOL],
  mechanism=[('worker loops', 'iwyu_tool.py execute_serial, '
              'execute_parallel'),
             ('child processes and their output', 'iwyu_tool.py Process'),
             ('selection and command construction',
              'iwyu_tool.py slice_compilation_db, Invocation')],
  level='exploration', claim=True,
  note='Seeded search; the whole program runs, with scripted children, clock, '
  'load and file system. Checked: multiset of commands and directories, and '
  'exact bytes of every report block.'),
 dict(id='C02',
  title='iwyu_tool honours job and load limits, uses free slots, terminates',
  statement='At no moment do more analyses run than the job limit allows, '
  'and with more than one job none is started while the load average exceeds '
  'the load limit and another is still running. A slot that becomes free '
  'while work remains and the load permits is used within about a second, a '
  'stalled analysis never holds up the others, and the run ends once every '
  'analysis has ended.',
  over=['schedules', 'configurations', 'fault_sequences'],
  text='all job counts and load limits, all load histories, and all timings '
  'of children, including stalled ones',
  why='The tests use no overlapping children and no load; limits and progress '
  'are statements over every moment of every schedule.',
  files=[TOOL],
  mechanism=[('worker loop', 'iwyu_tool.py execute_parallel'),
             ('load limit', 'iwyu_tool.py load checks in execute_parallel')],
  level='exploration', claim=True,
  note='Seeded search under simulated time; invariant checked at every start '
  'and exit, progress bounded in simulated seconds.'),
 dict(id='C03',
  title='iwyu_tool\'s outcome does not depend on jobs, load or timing',
  statement='For given analyses, the exit status of iwyu_tool and the set of '
  'printed reports are the same for every job count, load limit and order of '
  'completion. The status is zero exactly when every analysis succeeded, and '
  'is otherwise the highest exit code of an analysis, where any that ended '
  'normally with an error outweighs those killed by signals.',
  over=['schedules', 'configurations'],
  text='all sets of child outcomes under all schedules',
  why='A test checks one schedule; this compares every schedule with the '
  'serial one.',
  files=[TOOL],
  mechanism=[('exit status', 'iwyu_tool.py execute_serial, execute_parallel, '
              'worst_exit_code'),
             ('exit status of main', 'iwyu_tool.py main')],
  level='exploration', claim=True,
  note='Seeded search; each scenario runs serially and under three generated '
  'schedules and is compared with a reference.'),
 dict(id='C04',
  title='Failure of one analysis neither stops nor corrupts the others',
  statement='When an analysis crashes, is killed at any point of its output, '
  'writes bytes in any encoding, cannot be started, or loses its temporary '
  'file, every other selected analysis is still run and reported whole, and '
  'the exit status is not zero if any analysis failed. A compilation database '
  'that is missing, unreadable or damaged is reported as an error, with a '
  'nonzero status and nothing run.',
  over=['fault_sequences', 'crash_points', 'schedules', 'inputs'],
  text='all kinds and moments of child failure, spawn errors, temporary file '
  'errors and database damage, under all schedules and output formats',
  why='The tests have no failing children at all; the number of crash points '
  'and their interleavings with healthy children is unbounded.',
  files=[TOOL],
  mechanism=[('process handling', 'iwyu_tool.py Process'),
             ('database loading', 'iwyu_tool.py load_compilation_db, main'),
             ('conversion of damaged output', 'iwyu_tool.py clang_formatter')],
  level='exploration', claim=True,
  note='Seeded search with injected child, spawn, tempfile and database '
  'faults. What is printed for the damaged analysis itself is checked line '
  'by line only in the iwyu format.'),
 dict(id='C05',
  title='fix_includes leaves every file entirely old or entirely new',
  statement='At every moment of a run of fix_includes, and after it is killed, '
  'hit by an I/O error or cut short by a power failure at any moment, each '
  'source file holds either its complete previous content or the complete '
  'result of an edit, never a mixture, a part or nothing. The same holds when '
  'several instances edit the same files at the same time.',
  over=['crash_points', 'fault_sequences', 'schedules'],
  text='all points between two system calls, all failing or short system '
  'calls, all losses of unsynced data, and all interleavings of instances',
  why='The tests stub out reading and writing of files altogether, so no test '
  'sees an intermediate state of a file.',
  files=[FIX],
  mechanism=[('writing files', 'fix_includes.py _WriteFile'),
             ('editing loop', 'fix_includes.py FixManyFiles')],
  level='exploration', claim=True,
  note='Seeded search; the invariant is evaluated at every simulated system '
  'call of each run. Assumes atomic rename with ordered metadata.'),
 dict(id='C06',
  title='A file fix_includes cannot edit does not affect the others',
  statement='When a file named in the reports is missing, unreadable, '
  'read-only or not decodable, or reading or writing it fails, fix_includes '
  'leaves that file as it was and still edits every other file as if nothing '
  'had happened. It then exits with a nonzero status, its count of edited '
  'files is the number really edited, and it leaves no other files behind. A '
  'file that its report does not match is passed over in the same way.',
  over=['fault_sequences', 'inputs'],
  text='all sets of unusable files and all failing system calls during '
  'reading and writing',
  why='The tests never let a read or write fail, and editing several files '
  'with one failing in the middle is a matter of fault sequences.',
  files=[FIX],
  mechanism=[('editing loop', 'fix_includes.py FixManyFiles, FixOneFile'),
             ('reading and writing', 'fix_includes.py _ReadFile, _WriteFile'),
             ('sorting mode', 'fix_includes.py SortIncludesInFiles')],
  level='exploration', claim=True,
  note='Seeded search; each faulty run is compared with the fault-free run of '
  'the same scenario. Failing stat calls are excluded.'),
 dict(id='C07',
  title='Damaged or stale reports never make fix_includes damage a file',
  statement='Reports that were cut off at any point, repeated, or '
  'interspersed with compiler messages and other text lead to the same edits '
  'as the complete reports among them alone. A report whose #include line '
  'numbers do not fit the file any more never deletes a line that is not an '
  '#include. Input that is not valid text is either understood in this way '
  'or refused as a whole with a nonzero status and no edits.',
  over=['crash_points', 'fault_sequences', 'inputs'],
  text='all cut points, repetitions and insertions in a stream of reports, '
  'and all shifts of line numbers',
  why='The tests feed complete, matching reports; every byte position of a '
  'report is a possible end.',
  files=[FIX],
  mechanism=[('parsing of reports', 'fix_includes.py IWYUOutputParser, '
              'ProcessIWYUOutput'),
             ('checking against the file', 'fix_includes.py '
              '_CalculateLineTypesAndKeys')],
  level='exploration', claim=True,
  note='Seeded search; the run on the damaged stream is compared with runs on '
  'its complete reports. The report right after a cut one may be lost with '
  'it. Line numbers of forward declarations are trusted, as documented.'),
 dict(id='C08',
  title='The edits do not depend on how the reports were scheduled or collected',
  statement='The same reports lead fix_includes to the same edits, in whatever '
  'order the analyses finished, however many ran at once, and even when some '
  'of them are printed twice: with --reorder the files come out byte for byte '
  'the same; otherwise they have the same #includes (in the same '
  'conditionals), the same forward declarations (in the same namespaces), and '
  'the same other lines in the same order.',
  over=['schedules', 'histories', 'inputs', 'configurations'],
  text='all sets of reports, all orders, multiplicities and schedules under '
  'which iwyu_tool collects them, all files and options',
  why='The tests feed one report in one order; the number of orders and merges '
  'of reports is unbounded, and the tests never join the two tools.',
  files=[FIX, TOOL],
  mechanism=[('merging reports', 'fix_includes.py IWYUOutputRecord.Merge, '
              'ProcessIWYUOutput'),
             ('order of new lines', 'fix_includes.py FixFileLines'),
             ('collecting reports', 'iwyu_tool.py execute_parallel')],
  level='exploration', claim=True,
  note='Seeded search; each scenario is run with the reports as given, '
  'permuted and repeated, and as printed by the real iwyu_tool under a seeded '
  'schedule. Without --reorder new lines may come in another order.'),
 dict(id='C09',
  title='fix_includes edits only the selected files, and none in a dry run',
  statement='With --dry_run fix_includes changes nothing on disk, even when '
  'killed or beside another instance that edits, and the changes it prints '
  'and counts are exactly those the same run without it makes. Files outside '
  'the file list, outside --only_re or matching --ignore_re are left alone, '
  'and every selected file, however its name is spelled, is edited as without '
  'the restriction. With --sort_only no line of the listed files is lost, '
  'invented or moved across code or conditionals, and sorting again changes '
  'nothing.',
  over=['inputs', 'configurations', 'schedules', 'fault_sequences'],
  text='all source files, reports, options, selections and spellings of '
  'names, with kills, failing calls and other instances at work',
  why='The tests drive internal functions on one file in memory; what may '
  'not change on the disk, and the agreement of two whole runs, they do not '
  'see.',
  files=[FIX],
  mechanism=[('selection', 'fix_includes.py ProcessIWYUOutput'),
             ('dry run', 'fix_includes.py FixManyFiles, PrintFileDiff'),
             ('sorting', 'fix_includes.py SortIncludesInFiles')],
  level='exploration', claim=True,
  note='Seeded search; the whole program on the simulated file system, '
  'restricted and unrestricted runs from the same start compared byte for '
  'byte, printed diffs applied.'),
 dict(id='C10',
  title='fix_includes makes the edits reported and no other change',
  statement='After fix_includes has processed any set of reports, every line '
  'of code other than the reported ones is still there once, byte for byte '
  'and in order, in the file\'s own encoding; every #include and forward '
  'declaration reported for removal in all reports of the file is gone (in '
  'headers only if allowed), every other is kept, and every reported addition '
  'is present once. Conditionals and namespaces stay balanced, kept lines do '
  'not move across code or conditionals, new #includes are not put into a '
  'conditional other than one around the whole file, and in a file without '
  '#includes they are put above every declaration and definition.',
  over=['inputs', 'configurations', 'histories'],
  text='all source files (encodings, line endings, guards, conditionals, '
  'namespaces, comments) with all sequences of reports and options',
  why='The tests are some 140 fixed examples of one file and one report; '
  'conservation has to hold for every layout and every merge of reports.',
  files=[FIX],
  mechanism=[('deleting and inserting', 'fix_includes.py FixFileLines'),
             ('merging reports', 'fix_includes.py IWYUOutputRecord.Merge'),
             ('placing new lines', 'fix_includes.py _FirstReorderSpanWith, '
              '_GetToplevelReorderSpans')],
  level='exploration', claim=True,
  note='Seeded search over generated files and report histories on the '
  'simulated file system, against an executable reference of what must be '
  'kept, removed and added. Fault-free and sequential: the histories of '
  'merged reports are what is searched.'),
 dict(id='C11',
  title='The report depends on the program and options alone, not on environment',
  statement='For a given program (main file, headers, mapping files) and '
  'options, include-what-you-use gives byte-identical output and the same '
  'exit status, whatever addresses its allocator returns, whatever inode '
  'numbers, times and directory order its files have, whatever unrelated '
  'files lie beside them, and however its reads and writes are split or '
  'interrupted. It does not crash in any of these environments.',
  over=['configurations', 'schedules', 'fault_sequences', 'inputs'],
  text='all memory layouts, file identities, directory orders and chunkings '
  'and interruptions of system calls, for all programs',
  why='The analyser keys many sets and maps by pointer; a test sees the one '
  'memory layout of its run, and every run of a test sees about the same.',
  files=['iwyu.cc', 'iwyu_output.cc', 'iwyu_preprocessor.cc',
         'iwyu_include_picker.cc'],
  mechanism=[('order of reports and lines', 'iwyu_output.cc '
              'CalculateAndReportIwyuViolations'),
             ('choice among redeclarations', 'iwyu_output.cc '
              'IwyuFileInfo::ReportForwardDeclareUse'),
             ('sets of types and declarations', 'iwyu.cc, iwyu_ast_util.cc'),
             ('order of files', 'iwyu_preprocessor.cc')],
  level='exploration', claim=True,
  how='seeded search over memory layouts, file identities and call chunking',
  note='The real analyser with a simulated libc layer: every address, inode, '
  'time, directory order and read size comes from the seed; 3-4 environments '
  'per program, over the repository\'s 212 example programs and generated '
  'ones.'),
 dict(id='C12',
  title='A failing environment never turns into wrong advice',
  statement='When opening, reading or examining a file of the program, a '
  'header or a mapping file fails, when memory runs out, when the output '
  'cannot be written, or when it is killed, at any moment, '
  'include-what-you-use either reports exactly what it would have reported '
  'or ends with a nonzero exit status. Whatever complete reports it has '
  'printed by then are those it would have printed anyway. It never skips '
  'what it could not read and advises on the rest, and a program in which '
  'the compiler finds errors, as when one of its files was torn by a crash, '
  'gets no report and a nonzero exit status.',
  over=['fault_sequences', 'crash_points', 'configurations', 'inputs'],
  text='all programs and environments, with failing system calls, failing '
  'allocations, failing output and kills at all moments',
  why='The tests run on a healthy system; none makes a call fail.',
  files=['iwyu.cc', 'iwyu_driver.cc', 'iwyu_include_picker.cc',
         'iwyu_preprocessor.cc', 'iwyu_path_util.cc'],
  mechanism=[('end of an analysis with errors', 'iwyu.cc '
              'HandleTranslationUnit'),
             ('mapping files', 'iwyu_include_picker.cc AddMappingsFromFile'),
             ('exit status', 'iwyu.cc main, iwyu_driver.cc ExecuteAction')],
  level='exploration', claim=True,
  how='seeded search over injected faults and their moments',
  note='The real analyser with a simulated libc layer: faults at seeded '
  'operations (system calls by class and file, the n-th allocation, writes, '
  'kill), each outcome compared with the undisturbed one. Faults in Clang\'s '
  'search for its own installation are left out.'),
 dict(id='C13',
  title='The report for a program is exactly the documented one',
  statement='In every environment, the report for the main file, its '
  'associated header and each file to be checked adds exactly the missing '
  'headers and forward declarations its own text requires, removes exactly '
  'the include and forward-declaration lines it does not need (with their '
  'right line numbers), and lists the complete outcome with the symbols each '
  'header is for. A use that needs only a declaration asks for no header, a '
  'file whose lines are right is reported as correct. Pragmas, mapping files '
  'and options change this as documented, and the repository\'s '
  'documented examples give their documented reports.',
  over=['inputs', 'configurations'],
  text='all multi-file programs composed of documented kinds of uses of '
  'classes, functions, macros, templates, enums, variables and aliases, in '
  'main files, associated headers and other headers, with any combination of '
  'direct, indirect, missing, needless includes and declarations, of pragmas '
  '(keep, export, private, friend, no_include, no_forward_declare), header '
  'and symbol mappings and options',
  why='The tests are some 210 fixed programs, one construct each, each run in '
  'one environment; wrong reports come from combinations of uses, includes '
  'and declarations in several files, and from the environment.',
  files=['iwyu.cc', 'iwyu_output.cc', 'iwyu_ast_util.cc',
         'iwyu_preprocessor.cc'],
  mechanism=[('deciding full or forward-declarable use', 'iwyu.cc '
              'IwyuBaseAstVisitor'),
             ('computing desired lines', 'iwyu_output.cc '
              'CalculateAndReportIwyuViolations'),
             ('author intent', 'iwyu.cc CodeAuthorWantsJustAForwardDeclare'),
             ('macro uses', 'iwyu_preprocessor.cc ReportMacroUse')],
  level='exploration', claim=True,
  how='seeded search over composed programs and environments, against an '
  'executable reference model',
  note='The real analyser on a simulated file system and allocator. The '
  'model derives the exact report (lines, line numbers, reasons) of generated '
  'programs of up to 10 files from how they were built; the corpus has its '
  'documented reports.'),
 dict(id='C14',
  title='The pipeline keeps a project building, finishes, survives interruption',
  statement='Rounds of iwyu_tool piped into fix_includes over a whole project '
  'change nothing but #includes and forward declarations, leave every '
  'translation unit compiling, and end within four undisturbed rounds in a '
  'state where nothing more is edited and every report says correct (with the '
  'default protection of headers: except for lines to remove from headers). '
  'With that protection every moment of a round leaves the project compiling, '
  'and after analyses that failed or were killed, and after kills and power '
  'failures of the tools at any moment, further rounds still finish the job.',
  over=['histories', 'crash_points', 'fault_sequences', 'schedules',
        'configurations', 'inputs'],
  text='all projects of several translation units over common headers, all '
  'options, schedules and environments, and all moments of interruption in '
  'earlier rounds',
  why='No test joins the programs: that the edits of several reports together '
  'give a project that builds and needs no more edits, also after an '
  'interruption, is a statement about histories of the whole system.',
  files=[FIX, TOOL, 'iwyu.cc', 'iwyu_output.cc'],
  mechanism=[('headers reported before their sources', 'iwyu.cc '
              'HandleTranslationUnit'),
             ('computing desired lines', 'iwyu_output.cc '
              'CalculateAndReportIwyuViolations'),
             ('editing in the order of the reports, safe headers',
              'fix_includes.py ProcessIWYUOutput, FixManyFiles'),
             ('collecting reports', 'iwyu_tool.py execute_parallel')],
  level='exploration', claim=True,
  how='seeded search over projects, schedules, faults and crash points of the '
  'whole pipeline in one simulated system',
  note='The real analyser, iwyu_tool and fix_includes in one simulated system; '
  'every round is judged by the model of C13 on the files as edited so far, '
  'every state by compiling it.'),
 dict(id='C15',
  title='Edited files come out in the documented order, spacing and comments',
  statement='Wherever fix_includes edits or sorts a file, each block of '
  '#includes and forward declarations comes out grouped by kind: associated '
  'header, C system, C++ system, quoted, project headers, declarations '
  '(quoted before system with --quoted_includes_first), with the blank lines '
  'between kinds that the options ask for. With --reorder each kind is '
  'alphabetical (x-inl.h after x.h), otherwise existing lines keep their '
  'order and new ones follow. Lines carry the reported reasons only if '
  'comments are asked for, and are otherwise unchanged. Sorting that was '
  'interrupted anywhere and is run again gives the same as undisturbed.',
  over=['inputs', 'configurations', 'crash_points', 'fault_sequences'],
  text='all source files, sets of reports and option combinations; for '
  '--sort_only all moments of kills and power failures, failing calls and '
  'other instances',
  why='fix_includes_test.py samples a few files for each option; the order '
  'must hold for every file, every combination of options, and after every '
  'interruption.',
  files=[FIX],
  mechanism=[('kinds', 'fix_includes.py _GetLineKind, _IsMainCUInclude'),
             ('sorting and blank lines', 'fix_includes.py FixFileLines, '
              '_ShouldInsertBlankLine'),
             ('comments', 'fix_includes.py _DecoratedMoveSpanLines'),
             ('--sort_only', 'fix_includes.py SortIncludesInFiles')],
  level='exploration', claim=True,
  how='seeded search over files, reports, options, crash points and faults, '
  'against an executable statement of the order',
  note='The oracle reads the order off the result and decides the kind of '
  'each line itself; interrupted sorts are completed on what survived and '
  'compared with the undisturbed result.'),
]

NOT_APPLICABLE = []


def main():
    with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
        for p in PROPERTIES:
            f.write(json.dumps({
                'id': p['id'], 'title': p['title'],
                'statement': p['statement'],
                'quantifier': {'over': p['over'], 'text': p['text']},
                'why_tests_cant': p['why'],
                'anchors': {'files': p['files'],
                            'mechanism': [{'name': n, 'where': w}
                                          for n, w in p['mechanism']]}}) +
                '\n')
    checks = []
    na = list(NOT_APPLICABLE)
    for p in PROPERTIES:
        assert len(p['title']) <= 80, p['title']
        if not p['claim']:
            na.append({'property': p['id'], 'reason': p['reason']})
            continue
        checks.append({
            'property': p['id'],
            'quick_cmd': 'python3 check.py %s quick' % p['id'],
            'thorough_cmd': 'python3 check.py %s thorough' % p['id'],
            'technique': SIM + p.get('how', 'seeded search over schedules, '
                                     'faults and histories'),
            'level': p['level'], 'level_note': p['note']})
    manifest = {'version': 1, 'setup_cmd': 'python3 -m simlib.build',
                'checks': checks, 'not_applicable': na,
                'notes': 'No hooks in /repo: the Python tools run under a '
                'simulated operating system substituted from outside, the '
                'analyser is linked against a simulated libc layer. '
                'python3 check.py --replay FILE shows a violation again.'}
    with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
        json.dump(manifest, f, indent=1)
        f.write('\n')


main()
