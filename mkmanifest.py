#!/usr/bin/env python3
"""Writes MANIFEST.json from the table of checks below."""
import json
import os

os.chdir(os.path.dirname(os.path.abspath(__file__)))
TRUST = (" Trusted: TLC, the projection in harness/ (calls the public interface, reports what it returns), "
         "the comparison is made by TLC in the trace specification.")
NOTES = {
    "C20": ("TLA+ (TLC): MCMat refinement model + trace validation (TraceMat)",
            "Every history of up to 2 edits on two small matrices (all shapes up to 2x2x2, all edits) and random "
            "histories up to 60 edits on three matrices replayed on the real class; contents of all matrices "
            "compared with the specification after every call."),
    "C21": ("TLA+ (TLC): MCOps model of product and laws + trace validation (TraceMat/MatOps)",
            "Every operation on all pairs of shapes up to 3x3x2 and random sequences up to dimension 9; the "
            "specification decides result, refusal and that operands are unchanged."),
    "C01": ("TLA+ (TLC): Transfer specification with exact integer arithmetic (Big) + trace validation (TraceQC)",
            "Random systems (up to 80 basis functions, numbers of up to nine digits, both modes, monomers exchanged, signs flipped) calculated by the "
            "real TransferComplex; TLC computes every printed number and the returned one exactly and compares within "
            "the rounding of the printed digits (10^-8 of the sum of magnitudes)."),
    "C02": ("TLA+ (TLC): MCTransfer (invariance proved on the model for all orders of small systems) + trace validation (TraceQC)",
            "All orders of the atoms of small systems enumerated by TLC and random systems up to 16 atoms and lattices in random "
            "orders with noise below the compared decimals, run on the real code; each has to report the numbers of the "
            "system in order."),
    "C03": ("TLA+ (TLC): MCUnscramble enumeration + trace validation (TraceQC/Atoms)",
            "All valid matches of up to 4 atoms with widths 1..3 (5 thorough) and random ones up to 60 atoms; any order of the "
            "columns of atoms without a partner is accepted."),
    "C04": ("TLA+ (TLC): MCMatch, MCUnscramble (wild), MCTransfer (atoms) enumeration + trace validation (TraceQC)",
            "All small sets of places with duplicates, near misses and mirrored places; random ones with 0..4 decimals; "
            "unusable matches and transfer jobs whose atoms cannot be assigned have to be refused without a J_eff."),
    "C05": ("TLA+ (TLC): MCTransfer (select) enumeration + trace validation (TraceQC)",
            "All levels of small orbital ladders in all four HOMO/LUMO combinations incl. levels that do not exist, "
            "misspelt types; distinct rows make a wrong orbital visible in the numbers."),
    "C06": ("TLA+ (TLC): MCTransfer (shapes) enumeration + trace validation (TraceQC)",
            "All combinations of small, mutually inconsistent dimensions and random single faults in larger jobs: either "
            "refused without J_eff or exactly the specified numbers."),
    "C07": ("TLA+ (TLC): MCCalc (the run as a pipeline, files read in any order, with and without faults) + trace validation (TraceCalc/CalcJ)",
            "Directories of files and command lines with up to 2 (3 thorough) deviations from the plain run, and thousands of random "
            "systems and command lines, run with the real calc_J binary; TLC composes the specified readers and the two-state formula "
            "and compares every reported name, setting and number of the output and the exit status."),
    "C08": ("TLA+ (TLC): MCLogFile (stepwise reader against a declarative reading of the file) + trace validation (TraceLog)",
            "Files of up to 3 sections enumerated by TLC (tables of both spins, densities of columns, repeated tables) and random "
            "files with up to 60 orbitals; the specification gives the energies and the HOMO level of each spin."),
    "C09": ("TLA+ (TLC): MCLogFile + trace validation (TraceLog)",
            "Geometry tables in both header spacings, repeated and mixed with the other sections, up to 20 atoms."),
    "C10": ("TLA+ (TLC): MCLogFile (block layout of the lower triangle) + trace validation (TraceLog)",
            "Overlap sections for n = 1..17 and larger random n (30 quick, 60 thorough), every element compared."),
    "C11": ("TLA+ (TLC): MCLogFile + trace validation (TraceLog)",
            "Population tables with 1..n functions per atom, one/two letter elements, labels with blanks, 1..5 columns."),
    "C12": ("TLA+ (TLC): MCPunFile (line automaton against a declarative reading) + trace validation (TracePun)",
            "Coefficient files with one or both spins, 1..12 (random up to 37) basis functions, every value compared."),
    "C13": ("TLA+ (TLC): MCLogFile/MCPunFile with a cut after every line + trace validation (TraceLog/TracePun)",
            "Every enumerated file cut after every line, and random files cut at random bytes; time limit decides termination."),
    "C14": ("TLA+ (TLC): MCCalcJ (segments against the parse of their words) + trace validation (TraceParser/CalcJArgs)",
            "All pairs (triples thorough) of valid options around the file options; random lines of up to 15 options and the same "
            "ones in another order; every parameter of the run compared."),
    "C15": ("TLA+ (TLC): MCCalcJ enumeration with wrong segments + trace validation (TraceParser/CalcJArgs)",
            "Every enumerated and thousands of random lines with one wrong word, value, missing value or orbital number that "
            "does not fit the type at any place."),
    "C16": ("TLA+ (TLC): MCCalcJ enumeration with help/citation/version + trace validation (TraceParser/CalcJArgs)",
            "Help, citation and version words at any place between the options of valid and invalid lines, lines of nothing else, "
            "the empty line."),
    "C17": ("TLA+ (TLC): MCRoles (all names given x all sets of existing files) + trace validation (TraceParser/CalcJArgs)",
            "Names with directories, dots and blanks, other spellings of the same path, missing files and partners; files are "
            "compared by the place they are at."),
    "C18": ("TLA+ (TLC): MCRules (all histories of a rule), MCText (numbers and paths) + trace validation (TraceRules/ArgRules)",
            "Every history of two operations (three thorough) on each rule, directly and through its argument, and random ones of "
            "up to 25 operations; accepted values, settings read back, final check."),
    "C19": ("TLA+ (TLC): MCCmdLine (word-by-word machine against the parse) + trace validation (TraceParser/CmdLine)",
            "All lines of 3 (4 thorough) words of a small parser with and without defaults; random parsers of up to 6 options with "
            "rules and defaults, several command lines after each other, malformed declarations."),
    "C22": ("TLA+ (TLC): MCChars (laws of the helpers on all strings) + trace validation (TraceChars)",
            "All strings over a 4-letter alphabet up to length 5 (6 thorough) and random longer ones through every helper."),
    "C23": ("TLA+ (TLC): MCRanking model + trace validation (TraceQC/Ranking)",
            "All pairs of short energy columns (ties included) and random ones up to 100 levels; any valid ranking accepted."),
    "C24": ("TLA+ (TLC): MCMat (printing, invariant Legible: the text determines the matrix) + trace validation (TraceMat/Mat)",
            "The printed text of all small matrices and of matrices of up to 3 shelves after random histories, word by word; "
            "contents of all matrices compared afterwards."),
    "C25": ("TLA+ (TLC): MCUsage (a wrapping writer against the reading of its text) + trace validation (TraceParser/Usage)",
            "Usage text of all small declarations and of random ones (up to 40 options, long names and words, descriptions of "
            "any length), asked for directly, by --help and by an empty line; printed text read by TLC."),
    "C26": ("TLA+ (TLC): MCParams (all short histories) + trace validation (TraceParams)",
            "All histories of two settings and copies on two sets of parameters and random ones up to 60 steps; all fields "
            "compared after every step."),
    "C27": ("TLA+ (TLC): MCReaders (all short names) + trace validation (TraceParams/Text)",
            "All names of up to five parts and random ones; construction, extension, reading of existing and missing files."),
    "C28": ("TLA+ (TLC): MCReuse (all short histories of two readers) + trace validation (TraceReuse/LogFile/PunFile)",
            "All histories of up to five steps of two readers of one or two files (written, removed, cut off) and random ones; "
            "what both readers tell compared after every reading."),
    "C29": ("TLA+ (TLC): MCComplexes (all short histories of two complexes that share matrices) + trace validation "
            "(TraceComplexes/Transfer)",
            "Histories of five steps of two complexes enumerated by TLC and random ones of up to 22 steps of four (made, copied, "
            "lined up, asked, destroyed); every answer compared with the specified numbers, all matrices at the end."),
    "C30": ("TLA+ (TLC): MCWorld (all histories of two runs among two files that are replaced and removed) + trace validation "
            "of runs of the real program (TraceCalc/World)",
            "Histories of seven steps enumerated by TLC and random ones with up to four runs at a time of the real calc_J; every "
            "run judged by the specification on the files of its time, the whole directory tree (also HOME and TMPDIR) "
            "compared with what was put there."),
    "C31": ("TLA+ (TLC): MCMessages (all programs of three log statements in step at five levels) + trace validation "
            "(TraceMessages/Messages) of log.hpp and the real program built with several levels",
            "All enumerated programs and random ones on log.hpp built with five levels; random files and command lines of "
            "C07 on the real calc_J built with four levels, outputs compared piece by piece."),
    "C32": ("TLA+ (TLC): MCTurns (all orders of the calls of two and three clients) + trace validation of each client's "
            "events against the specification of its objects",
            "Groups of random clients of nine kinds executed in the enumerated orders (one thread or one for each) and at the "
            "same time in threads under the thread sanitizer."),
    "C33": ("TLA+ (TLC): MCSections (all small files and registrations, a reader at work line by line) + trace validation "
            "(TraceSections/Sections) of readers derived from FileReader",
            "All files of up to three lines with all registrations of two tags and random files, headers and section "
            "functions, one or two readers that read one or several times; the calls and the lines they got compared."),
}


def main():
    checks = []
    for p in sorted(NOTES):
        tech, note = NOTES[p]
        checks.append({
            "property": p,
            "quick_cmd": "VERIF_TIER=quick python3 check.py " + p,
            "thorough_cmd": "VERIF_TIER=thorough python3 check.py " + p,
            "evidence_file": "evidence/%s.json" % p,
            "technique": tech,
            "level": "model_checking",
            "level_note": note + TRUST,
        })
    m = {"version": 1, "setup_cmd": "true", "checks": checks, "not_applicable": [],
         "notes": "All checks: check.py PROPERTY; specification in spec/, harness in harness/, see DESIGN.md."}
    ids = [json.loads(x)["id"] for x in open("properties.jsonl") if x.strip()]
    for i in ids:
        if i not in NOTES:
            m["not_applicable"].append({"property": i, "reason": "check not built yet"})
    with open("MANIFEST.json", "w") as w:
        json.dump(m, w, indent=1)
        w.write("\n")


if __name__ == "__main__":
    main()
