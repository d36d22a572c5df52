"""Writes /verif/properties.jsonl (the single place the property texts are kept)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state:
        a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})
D = "pydarnio/dmap/dmap.py"; S = "pydarnio/dmap/superdarn.py"; F = "pydarnio/dmap/superdarn_formats.py"
C = "pydarnio/utils/conversions.py"; DS = "pydarnio/dmap/datastructures.py"
B = "pydarnio/borealis/"
BF, BFM, BR, BU = B+"base_format.py", B+"borealis_formats.py", B+"borealis_restructure.py", B+"borealis_utilities.py"
BS, BA, BO, BC = B+"borealis_site.py", B+"borealis_array.py", B+"borealis.py", B+"borealis_convert.py"

prop("P01", "DMAP records survive a write and a read unchanged",
 "Any list of records that is accepted for writing and in which every record has at least one scalar and at least one array, all arrays non-empty (only slist may be empty), reads back from the file or stream it produced as the same records in the same order: the same field names, DMAP types, array shapes and exact values (a plain Python float is kept at single precision). A structure whose name, type, format or shape is not that of its value is refused. The order of the fields within a record, the memory layout or byte order of an array, and non-ASCII names or strings make no difference.",
 ["inputs"], "every record list over all DMAP scalar and array types, every dimension count and shape, every value (extremes, NaN, negative chars), every field order",
 "The tests write a handful of fixed records; field order, layouts, high-dimensional shapes, extreme values and several records of different structure are not sampled.",
 [D, C, DS], [("record serialiser", D+":DmapWrite._dmap_record_to_bytes"), ("record parser", D+":DmapRead.read_record")])
prop("P02", "Written bytes are exactly the DMAP block layout",
 "The bytes written for a record list are the concatenation, in order, of one block per record: code 65537, total block size in bytes, number of scalars, number of arrays, then every scalar as name, zero, type code, value and every array as name, zero, type code, number of dimensions, sizes with the fastest-varying dimension first, C-order data, all little-endian. The stream returned and the file written for the same records are identical.",
 ["inputs"], "every record list the writer accepts",
 "Tests only read back what the same library wrote; a compensating error in writer and reader, or a wrong header that the reader tolerates, passes them but breaks RST and other readers.",
 [D], [("block header and body", D+":DmapWrite._dmap_record_to_bytes"), ("scalar and array encoders", D+":DmapWrite.dmap_scalar_to_bytes, dmap_array_to_bytes")])
prop("P03", "Reading damaged DMAP data never yields wrong or partial records",
 "For every byte string, reading terminates and either returns exactly the records the DMAP layout assigns to those bytes, accounting for every byte, or raises one of the documented DMAP reading errors or a text or value decoding error (ValueError family). Bytes whose block size, counts, type codes, dimensions, strings or sizes are inconsistent with the data are always refused.",
 ["inputs", "fault_sequences"], "every byte string: empty, truncated, extended, with any header, count, type, dimension, size, name or data byte changed",
 "The corrupt-file tests need data files that are not in the repository, and sample three corruptions; the claim is about every damage.",
 [D], [("size, count, type and cursor checks", D+":DmapRead.read_record, read_array, read_data")],
 [("cursor", "position reached in the byte buffer", D+":DmapRead.cursor")])
prop("P04", "A DMAP write depends only on its records, whatever happened before",
 "Writing never changes the caller's records, and the bytes a write produces depend only on the records that writer was given: repeated writes, writes to other files, stream and file writes in any order, several writers sharing records, and earlier refused writes all leave the output the same. Readers of the same bytes return equal records and do not disturb each other.",
 ["histories"], "every sequence of creating writers and readers on shared records and calling their write and read operations, including refused ones",
 "Tests call each writer once; reuse, sharing and histories after failures are not explored.",
 [D, S, C], [("buffer handling", D+":DmapWrite.write_dmap_stream, dmap_records_to_bytes"), ("SuperDARN writers", S+":SDarnWrite.superDARN_file_structure_to_bytes")],
 [("dmap_bytearr", "bytes accumulated by a writer", D), ("dmap_records", "records held by a writer", D)])
prop("P05", "A refused DMAP or SuperDARN write leaves the target file untouched",
 "When a DMAP or SuperDARN write is refused (no file name, no records, a value that cannot be encoded, a missing, extra or wrongly typed field in any record), the file at the target path stays exactly as it was: absent or with its previous content. A write that succeeds replaces the previous content completely.",
 ["histories", "fault_sequences"], "every sequence of successful and refused writes on the same and on different paths, with the offending record at any position",
 "Tests check that an exception is raised, not what is on disk afterwards.",
 [D, S], [("records are encoded before the file is opened", D+":DmapWrite.write_dmap"), ("the six SuperDARN writers", S+":SDarnWrite.write_iqdat .. write_map")])
prop("P06", "Plain dictionaries and DMAP structures convert losslessly both ways",
 "Converting a list of plain dictionaries to DMAP structures and back returns equal dictionaries: the same fields in the same order with equal values of the same kind (lists become arrays), and neither direction changes its input. Each Python or NumPy type maps to one fixed DMAP type code (int8 1, int16 2, int and int32 3, float and float32 4, float64 8, str 9, int64 10, uint8 16, uint16 17, uint32 18, uint64 19), and array structures carry the array's true shape and number of dimensions.",
 ["inputs"], "every dictionary list over the supported value types, shapes and field orders",
 "Tests convert one or two sample dictionaries; the type table, shapes and empty or many-record lists are not covered.",
 [C, DS], [("dict to DMAP", C+":dict2dmap"), ("DMAP to dict", C+":dmap2dict")])
prop("P07", "SuperDARN writers accept exactly the records their file type allows",
 "Writing records as iqdat, rawacf, fitacf, snd, grid or map succeeds exactly when no record has a field outside that type's published fields, no published field group (other than the optional ones) is only partly present, and every field has its published DMAP type. Otherwise the write is refused with the missing-field, extra-field or wrong-type error that applies to the first offending record, naming that record's number and exactly the offending fields.",
 ["inputs"], "for all six file types: every combination of present, absent and partly present field groups, every added, removed or retyped field, at every record position",
 "Tests drop or add one or two chosen fields in the first records; the field tables have hundreds of entries and groups combine.",
 [S, F], [("checks", S+":SDarnUtilities.missing_field_check, extra_field_check, incorrect_types_check"), ("field tables", F)])
prop("P08", "SuperDARN readers accept exactly what the matching writer accepts",
 "Reading a file as iqdat, rawacf, fitacf, snd, grid or map returns its records exactly when every record satisfies that type's published field groups and DMAP types; otherwise it raises the missing-field, extra-field or wrong-type error that applies to the first offending record, naming that record's number and exactly the offending fields. Whatever the writer of a type accepts, the reader of that type returns with the same fields, types, values and order.",
 ["inputs"], "for all six file types: every combination of present, absent and partly present field groups, every added, removed or retyped field, at every record position",
 "The reader tests need data files that are not in the repository, so none of them runs here.",
 [S, F], [("record reader with checks", S+":SDarnRead._read_darn_record"), ("per-type field lists", S+":SDarnRead.read_iqdat .. read_map")])
prop("P09", "Borealis site files survive a write and a read unchanged",
 "For every Borealis file type and supported version, site-structured records that pass the field checks read back from the site file as the same records: the same record names in time order (record names of 13 digits, that is times since September 2001), the same fields and types, and equal values and shapes. Reading never changes the file.",
 ["inputs", "configurations"], "rawacf, bfiq, antennas_iq and rawrf in v0.4, v0.5, v0.6 and v0.7, any number of records, any per-record sequence, beam and sample counts",
 "The Borealis read tests need data files that are not in the repository; the write tests use a few fixed records and do not read back.",
 [BS, BU, BFM, BF], [("site writer", BS+":BorealisSiteWrite"), ("site reader", BS+":BorealisSiteRead")])
prop("P10", "Borealis array files survive a write and a read unchanged",
 "For every restructurable Borealis file type and supported version, array-structured data that passes the field checks reads back from the array file as the same arrays: the same fields and types, and equal values and shapes. Reading never changes the file.",
 ["inputs", "configurations"], "rawacf, bfiq and antennas_iq in v0.4, v0.5, v0.6 and v0.7, any number of records and any dimension sizes",
 "The Borealis read tests need data files that are not in the repository, and the array write tests do not read back.",
 [BA, BU, BFM, BF], [("array writer", BA+":BorealisArrayWrite"), ("array reader", BA+":BorealisArrayRead")])
json_path = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
prop("P11", "Restructuring site data to arrays and back loses nothing",
 "Restructuring site records to arrays and those arrays back to site records returns the original records, whatever the numbers of sequences, beams and blanked samples per record. In the arrays, record i of the site data is entry i, its values lie at the start of each dimension, each dimension has the largest size any record needs, everything beyond is filler, and the per-record counts give the true sizes.",
 ["inputs", "configurations"], "rawacf, bfiq and antennas_iq in all supported versions; any number of records; per-record sequence, beam and blanked-sample counts varying independently and in any order",
 "The restructuring tests need data files that are not in the repository; records of differing sizes are what breaks it.",
 [BF, BFM, BR, BO], [("in-memory restructuring", BF+":BaseFormat._site_to_array, _array_to_site"), ("dimension functions", BFM)])
prop("P12", "File restructuring agrees with in-memory restructuring",
 "Restructuring a file into a new file (site to array or array to site) produces a file whose contents equal what reading the source and asking for the other structure gives in memory, for every type, version and source that passes the field checks. The source file is left unchanged, and restructuring there and back reproduces the original file's records.",
 ["inputs", "configurations", "histories"], "rawacf, bfiq and antennas_iq in all supported versions, both directions, varying per-record sizes, repeated conversions",
 "The two implementations are separate code; the tests for either need data files that are not in the repository.",
 [BR, BF, BFM, BO], [("file restructuring", BR+":BorealisRestructure"), ("in-memory restructuring", BF)])
prop("P13", "Borealis readers and writers accept exactly what the format allows",
 "Reading or writing Borealis data succeeds exactly when every record (or the array data) has all fields of its type and version, no other field, every field in its published type and, for arrays, the same number of records in every per-record field; otherwise the documented missing-field, extra-field, wrong-type, bad-records, record-count or structure error is raised and names the offending fields and records. Reading and writing agree on what is acceptable.",
 ["inputs", "configurations"], "every type, version and structure; every field removed, added or retyped, in any record, alone or combined",
 "Tests touch one field of two file types in one version.",
 [BU, BFM, BS, BA], [("record checks", BU+":BorealisUtilities.check_records"), ("array checks", BU+":BorealisUtilities.check_arrays")])
prop("P14", "Borealis readers recognise structure and version correctly",
 "A reader that is not told the structure recognises site and array files as what they are, uses the format that belongs to the software version recorded in the file, and gives the same data as a reader that is told; a file of an unknown version, a wrong or unsupported file type or a wrong structure is refused with the documented error. Either kind of source can be asked for records and for arrays.",
 ["inputs", "configurations"], "every type, version and structure, told and untold, right and wrong",
 "Structure and version tests need data files that are not in the repository.",
 [BO, BU, BS, BA], [("structure detection", BO+":BorealisRead"), ("version lookup", BU+":BorealisUtilities.get_borealis_version")])
prop("P15", "Borealis to SuperDARN conversion yields one right record per beam",
 "Converting a Borealis rawacf or bfiq file to SuperDARN rawacf or iqdat yields exactly one record per Borealis record and beam, in record-then-beam order, each a valid record of the target type whose station, time, beam, frequency, pulse, lag, range, scan and averaging fields are those of that Borealis record and beam; site and array sources of the same data give the same result. What is written to the file is what the converter holds in memory.",
 ["inputs", "configurations"], "rawacf and bfiq in all supported versions and both structures; any number of records, beams, sequences, ranges, lags and pulses",
 "The conversion tests need data files that are not in the repository.",
 [BC], [("record conversion", BC+":BorealisConvert._convert_rawacf_to_rawacf, _convert_bfiq_to_iqdat")])
prop("P16", "Converted samples keep their position, scaling and clipping",
 "In converted rawacf records every range and lag of the correlations appears at its own position (real, imaginary), scaled by the documented normalisation, lag-zero power included, and the alternate last lag left out; in converted iqdat records every sequence, antenna array and sample appears at its own position, scaled to 16-bit integers and clipped at the type's limits.",
 ["inputs"], "every combination of numbers of beams, sequences, arrays, samples, ranges and lags, and sample values up to and beyond the clipping limits",
 "The conversion tests need data files that are not in the repository, and only check that no exception is raised.",
 [BC], [("array reordering and scaling", BC+":BorealisConvert")])
prop("P17", "Refused Borealis operations leave no output and change no input",
 "When a Borealis write, restructuring or conversion is refused (unknown type, same input and output, inconvertible blanked samples or pulse phases, unsupported type, failed field checks, wrong structure, a later record that cannot be stored), no output file is created, an existing output file keeps its content, and no input file is changed; nor does a successful operation change its input file or the caller's data.",
 ["fault_sequences", "histories", "configurations"], "every operation, type, version and reason for refusal, with the output path absent or already present",
 "Tests check that some of these raise, not what is left on disk.",
 [BC, BR, BS, BA, BO], [("conversion refusals", BC), ("restructuring", BR), ("writers", BS)])
if __name__ == "__main__":
    with open(json_path, "w") as f:
        for p in P:
            assert len(p["title"]) <= 80, p["title"]
            f.write(json.dumps(p) + "\n")
    print(len(P))
