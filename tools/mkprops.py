#!/usr/bin/env python3
"""Generate /verif/properties.jsonl (kept as a script so the file stays consistent)."""
import json, os
EG='src/gempakio/encode/gempak.py'; DG='src/gempakio/decode/gempak.py'
EV='src/gempakio/encode/vgf.py'; DV='src/gempakio/decode/vgf.py'
T='src/gempakio/tools.py'; C='src/gempakio/common.py'; GC='src/gempakio/gemcalc.py'
P=[]
def p(id,title,statement,over,qtext,why,files,mech,observe,state=None,hook=None):
    a={'files':files,'mechanism':[{'name':n,'where':w} for n,w in mech],'observe_at':observe,'hook_needed':hook}
    if state: a['state']=[{'name':n,'meaning':m,'where':w} for n,m,w in state]
    P.append({'id':id,'title':title,'statement':statement,'quantifier':{'over':over,'text':qtext},'why_tests_cant':why,'anchors':a})

p('C01','Grid values survive write and read to within half a packing step',
  'When a grid of any number type is written to a GEMPAK grid file and read back, every non-missing value differs from the value given by at most half a packing step, plus single-precision rounding. The packing step is the smallest power of two with which the range of the grid\'s non-missing values fits into the requested number of bits (1 to 31) with the all-ones code kept for missing data. This holds for every grid shape, every precision, and whatever other points of the grid are missing.',
  ['inputs','configurations'],'all grid values in the packable range, all missing patterns, all shapes, all precisions 1..31',
  'The tests round-trip a handful of random grids at a few precisions and only loosely compare; a packing shift that is wrong for one alignment of value width and word boundary, or a scale that is one power of two off for some range, is not met.',
  [EG,DG],[('scale selection and packing of codes into 32-bit words','encode/gempak.py:pack_grib'),('unpacking of codes from words','decode/gempak.py:_unpack_grib'),('data block header written/read','encode/gempak.py:GridFile._write_data, decode/gempak.py:GempakGrid._unpack_grid')],
  ['values of the arrays returned by the grid reader'])
p('C02','Missing grid points, and only those, come back missing',
  'A grid point given as NaN, as a masked element or as the missing value -9999 is masked when the file is read back, and a point given any other value is not masked. This holds for every arrangement of missing points in the grid, including grids that are entirely missing or otherwise constant.',
  ['inputs','configurations'],'all missing patterns, all values incl. the largest of the grid, all precisions',
  'Tests use one or two missing patterns; whether the largest valid value collides with the reserved missing code depends on the exact range, precision and rounding.',
  [EG,DG],[('NaN replacement','encode/gempak.py:DataManagementFile._replace_nan'),('missing code is all ones','encode/gempak.py:pack_grib'),('missing code recognised','decode/gempak.py:_unpack_grib'),('mask built from missing value','decode/gempak.py:GempakGrid.gdxarray')],
  ['mask of the arrays returned by the grid reader'])
p('C03','Grid times, forecast hours and time ranges survive write and read',
  'A grid written with a date and time, with or without a type (analysis, forecast, guess, initial) and forecast hour and minute, and optionally a second date and time, is reported by the reader with exactly that valid time (initial time plus forecast time), that type and that second valid time. This holds whether the time is given as a string or as a datetime object, for every date the two-digit-year file format can represent (1969-2068).',
  ['inputs'],'all dates/times to the minute 1969-2068, all types, all forecast hours 0-999 and minutes, with/without second time',
  'Tests write a few dates; packing of month/day/year/hour/minute into one integer and back is a calculation whose errors show only for particular dates or forecast times.',
  [EG,DG],[('time parsing','encode/gempak.py:GridFile.add_grid'),('integer time words','encode/gempak.py:GridFile._write_column_headers'),('integer time decoding','decode/gempak.py:GempakFile._convert_dattim/_convert_ftime')],
  ['grid listing of the reader (times, type)','time coordinate and grid_type attribute of returned arrays'])
p('C04','Grid name, levels and vertical coordinate survive write and read',
  'The parameter name (up to 12 characters), the one or two levels and the vertical coordinate given for a grid are those the reader reports for it, with the name in upper case and an omitted second level or vertical coordinate reported as absent. Names longer than 12 characters, vertical coordinates longer than 4 characters and unknown vertical coordinates are rejected when the grid is added.',
  ['inputs'],'all printable names of length 1..12, all non-negative levels, all vertical coordinates the format defines',
  'Tests use common short names; splitting a 12 character name over three words, padding and stripping has boundary cases at each length.',
  [EG,DG],[('name split over three words','encode/gempak.py:GridFile.add_grid'),('string word writing','encode/gempak.py:GempakStream.write_string'),('strip and join','decode/gempak.py:GempakGrid.__init__'),('level conversion','decode/gempak.py:GempakFile._convert_level')],
  ['grid listing of the reader','name and coordinates of returned arrays'])
p('C05','Every grid in a file comes back with its own data, once, and replaced on re-add',
  'When several grids are added to a file, in any order, reading the file returns each distinct grid exactly once, with the data that was added for it and never the data of another grid. Adding a grid with the same identity again replaces the earlier data; a grid of a file that has no data gives nothing.',
  ['inputs','histories'],'all short sequences of add operations with arbitrary (possibly equal) identities and arbitrary data, mixes of grids with and without a second time',
  'Tests add one or two grids in one order; association of header order, pointer order and data order depends on the relation between arbitrary identities.',
  [EG,DG],[('ordering of headers and data pointers','encode/gempak.py:GridFile._write_column_headers/_write_data'),('set of identities','tools.py:OrderedSet'),('pointer arithmetic','decode/gempak.py:GempakGrid.gdxarray')],
  ['arrays returned by the grid reader'],
  state=[('data','identity -> grid data','encode/gempak.py:DataManagementFile.data')])
p('C06','Writers and readers never change the data and arguments the caller passes in',
  'Adding grids, soundings, surface observations or vector graphics elements to a file and writing it leaves the caller\'s arrays, dictionaries and lists exactly as they were, and changing them after they were added does not change what is written. Selecting data from a reader leaves the argument lists of the caller as they were, and what the caller does to the values a query returned does not change what later queries return.',
  ['inputs','histories'],'all data contents incl. NaN, all argument forms (lists, tuples), changes after adding',
  'Tests do not look at their inputs after the call; only inputs with NaN, or reused arguments, expose it.',
  [EG,DG],[('copying on add','encode/gempak.py:GridFile.add_grid, SoundingFile.add_sounding, SurfaceFile.add_station'),('argument normalisation','decode/gempak.py:gdxarray, snxarray, sfjson, nearest_time')],
  ['the caller\'s own objects after the call','content of the file written'])
p('C07','Soundings survive write and read',
  'Every sounding added to a sounding file is read back exactly once with its own station identifier (up to 8 characters), number, elevation, state, country, time (initial time plus forecast hour, if given) and, for every parameter and level, its own value to single precision, NaN and masked values being masked. This holds for any number of stations and times, added in any order, with stations missing at some of the times; adding the same station and time again replaces the earlier data.',
  ['inputs','histories'],'all values, all identities, all short histories of adds',
  'Tests write a few fixed stations and times; placement of data blocks depends on the order and the holes in the station-by-time table.',
  [EG,DG],[('identity and data collection','encode/gempak.py:SoundingFile.add_sounding'),('header and data writing','encode/gempak.py:SoundingFile._write_*'),('header and data reading','decode/gempak.py:GempakSounding.__init__/_unpack_merged')],
  ['datasets returned by the sounding reader'])
p('C08','Surface observations survive write and read',
  'Every observation added to a surface file is read back exactly once with its own station identifier (up to 8 characters), number, elevation, state, country, priority, time and, for every parameter, its own value to single precision, with NaN and masked values stored as the missing value. This holds for any number of stations and times, added in any order, with stations missing at some of the times, and for times given as string or as datetime; adding the same station and time again replaces the earlier data.',
  ['inputs','histories'],'all values, all identities, all short histories of adds',
  'Tests write a few fixed stations and times; placement of data blocks depends on the order and the holes in the station-by-time table.',
  [EG,DG],[('identity and data collection','encode/gempak.py:SurfaceFile.add_station'),('header and data writing','encode/gempak.py:SurfaceFile._write_*'),('header and data reading','decode/gempak.py:GempakSurface.__init__/_unpack_standard')],
  ['objects returned by the surface reader'])
p('C09','Station coordinates are stored to the nearest hundredth of a degree',
  'The latitude and longitude of a station read from a sounding or surface file differ from those given when it was written by at most half a hundredth of a degree, so that a coordinate given with two decimals is read back exactly.',
  ['inputs'],'all latitudes in [-90,90] and longitudes in [-180,360]',
  'Tests use a few coordinates for which scaling by 100 happens to be exact in floating point.',
  [EG,DG],[('scaling to integer','encode/gempak.py:SoundingFile/SurfaceFile._write_column_headers'),('scaling back','decode/gempak.py:GempakSounding.__init__, GempakSurface._key_types')],
  ['station latitude and longitude from the readers'])
p('C10','Regions of a written file never overlap and every pointer is in bounds',
  'For any number of grids, stations, times and parameters within the limits of the format, the label, key names, file headers, row headers, column headers, part and parameter tables, data pointers and data blocks of a written file occupy disjoint regions inside the file. Each region starts where the label (or data pointer) says it does, on the block boundary the format requires, and the file is a whole number of 512-byte blocks.',
  ['inputs','configurations'],'all row counts, column counts (up to the format limit of 32000 headers) and parameter counts (up to 44)',
  'The tests write small files, where every region is padded to one block; overlaps appear only for particular counts around block boundaries.',
  [EG],[('pointer layout','encode/gempak.py:DataManagementFile._set_pointers'),('record arithmetic','encode/gempak.py:DataManagementFile._dmword'),('label','encode/gempak.py:DataManagementFile._write_label')],
  ['words of the written file'],state=[('*_ptr','1-based word addresses of the regions','encode/gempak.py:_set_pointers')])
p('C11','Files read the same in either byte order',
  'A GEMPAK grid, sounding or surface file gives exactly the same result to the reader whether its words are stored little- or big-endian.',
  ['inputs','configurations'],'all contents of header integers, reals and data words, both byte orders',
  'The sample files of the tests are nearly all of one byte order, so a field read in native order goes unnoticed.',
  [DG,T],[('byte order detection','decode/gempak.py:GempakFile._swap_bytes'),('every multi-byte read','decode/gempak.py, tools.py:IOBuffer.read_int/read_binary/read_struct')],
  ['everything the readers return'])
p('C12','Real values packed as integers are unpacked as the format defines',
  'Sounding and surface data stored as packed integers are read back as (field + offset) x 10^scale for each parameter, where the fields of one record are consecutive bit fields of the given widths starting at the least significant bit of the first word, and a field of all ones is missing. This holds for every word content and all field widths, including fields that straddle words and words with the top bit set.',
  ['inputs','configurations'],'all 32-bit word contents, width combinations from 1 to 32 bits, all offsets and scales',
  'Tests decode sample files with one table of widths each; sign extension and straddling errors depend on particular bits and widths.',
  [DG],[('bit field extraction','decode/gempak.py:GempakFile._unpack_real'),('shift with sign handling','decode/gempak.py:GempakFile._fortran_ishift')],
  ['parameter values from the sounding and surface readers'])
p('C13','GRIB-packed grids are unpacked as the format defines',
  'A grid stored with GRIB packing is read as reference + code x scale for each point, where the codes are consecutive big-endian bit fields of the stated width over the data words, and the all-ones code is missing when the missing flag is set. This holds for every word content, every width from 1 to 31 bits and every grid size.',
  ['inputs','configurations'],'all 32-bit word contents, all widths 1..31, all sizes, missing flag on/off',
  'Tests decode a few sample files with 16-bit or similar codes; the vectorised shifts err only for particular widths and positions.',
  [DG],[('vectorised unpacking','decode/gempak.py:_unpack_grib'),('data header','decode/gempak.py:GempakGrid._unpack_grid')],
  ['arrays returned by the grid reader'])
p('C14','Difference-packed and unpacked grids are read as the format defines',
  'A grid stored with difference packing is read as the running sum of reference and (minimum difference + code x scale) along each row, each row starting from the first valid point of the row before it, with the all-ones code missing when the missing flag is set. A grid stored without packing is read as its words. This holds for every word content, code width and grid shape.',
  ['inputs','configurations'],'all 32-bit word contents, all widths 1..31, shapes, missing patterns',
  'One sample file is compared in the tests; missing values at row starts and codes that straddle words are not covered.',
  [DG],[('difference unpacking','decode/gempak.py:GempakGrid._unpack_grid')],
  ['arrays returned by the grid reader'])
p('C15','Grid selection returns exactly the grids that match all filters',
  'Selecting grids by parameter, time, vertical coordinate, level, second time and second level returns exactly the grids of the file that match every filter given, in file order. Filters may be single values, lists or tuples, names match regardless of the case given, and "first"/"last" mean the earliest/latest time present in the file; if nothing matches, a KeyError is raised.',
  ['inputs','configurations'],'all combinations of filters and argument forms over files with arbitrary grid identities',
  'Tests use one or two filter combinations on one sample file.',
  [DG],[('filter chain','decode/gempak.py:GempakGrid.gdxarray')],
  ['list returned or exception raised'])
p('C16','Sounding selection returns exactly the soundings that match all filters',
  'Selecting soundings by station identifier, station number, time, state, country and bounding box returns exactly the soundings of the file that match every filter given. Filters may be single values, lists or tuples, names match regardless of the case given, "first"/"last" mean the earliest/latest time present in the file, and the box includes its edges; if nothing matches, a KeyError is raised.',
  ['inputs','configurations'],'all combinations of filters and argument forms over files with arbitrary stations and times',
  'Tests use one or two filter combinations on one sample file.',
  [DG],[('filter chain','decode/gempak.py:GempakSounding.snxarray'),('box test','decode/gempak.py:_bbox_filter')],
  ['list returned or exception raised'])
p('C17','Surface selection returns exactly the observations that match all filters',
  'Selecting surface observations by station identifier, station number, time, state, country and bounding box returns exactly the observations of the file that match every filter given. Filters may be single values, lists or tuples, names match regardless of the case given, "first"/"last" mean the earliest/latest time present in the file, and the box includes its edges; if nothing matches, a KeyError is raised.',
  ['inputs','configurations'],'all combinations of filters and argument forms over files with arbitrary stations and times',
  'Tests use one or two filter combinations on one sample file.',
  [DG],[('filter chain','decode/gempak.py:GempakSurface.sfjson'),('box test','decode/gempak.py:_bbox_filter')],
  ['list returned or exception raised'])
p('C18','The nearest-time query returns a nearest observation of every selected station',
  'A nearest-time query returns exactly one observation for each station selected by identifier, number, state, country or bounding box, and no observation of that station in the file is closer in time to the requested time than the one returned. No filter, or more than one, is rejected.',
  ['inputs','configurations'],'all sets of observation times, all requested times, all filter kinds',
  'Tests ask for one time in one file.',
  [DG],[('nearest search','decode/gempak.py:GempakSurface.nearest_time')],
  ['list returned or exception raised'])
p('C19','VGF elements survive write and read',
  'Lines, special lines, fronts, special text, symbols and file headers written to a vector graphics file are read back with the same class and type, group, colours, coordinates (to single precision, in the same order), text and all other attributes, one element for each one added and in the order added. This holds for every value the element accepts, and a named code (of line, symbol, front, font, text, fill or colour) is the one GEMPAK gives that name, on writing and on reading.',
  ['inputs','histories'],'all accepted attribute values, coordinates and texts; sequences of elements',
  'Tests round-trip a few fixed elements; an attribute written at the wrong offset or with the wrong size shows only when neighbouring attributes have distinguishing values.',
  [EV,DV],[('element encoders','encode/vgf.py:*.encode'),('record size','encode/vgf.py:VGFAttribute/*.encode'),('element decoders','decode/vgf.py:VectorGraphicFile._decode_*')],
  ['elements of the VGF reader'])
p('C20','VGF element parameters are validated the same way everywhere',
  'A parameter value outside the range documented for an element is rejected with an error both when the element is made and when the attribute is set later, and a rejected assignment leaves the element unchanged. A value inside the range is accepted and can then be written.',
  ['inputs'],'all integer and real values of each parameter, all constructors and setters',
  'Tests try one or two bad values for some attributes; boundary values and the values only one of constructor and setter rejects are not met.',
  [EV],[('property setters and constructors','encode/vgf.py:*')],
  ['exceptions raised, attribute values, bytes written'])
p('C21','Reading a VGF file always ends and finds every element, whatever lies between',
  'Reading terminates for every record header in a file, and each element is found at the position the record sizes of the elements before it imply: an element of unknown or unsupported type is passed over by its record size without affecting the elements after it.',
  ['inputs'],'all header contents (type, group, record size, sizes of foreign records), positions of unknown records',
  'The sample files contain only well-formed known elements; unknown types and odd record sizes never occur.',
  [DV],[('record loop','decode/vgf.py:VectorGraphicFile.__init__/_decode_elements'),('skip of unknown records','decode/vgf.py:VectorGraphicFile')],
  ['elements of the VGF reader; termination'])
p('C22','Every field of every VGF element type is decoded from its place in the record',
  'For each element type and version of vector graphics files, in either byte order, every attribute of the decoded element equals the content of the corresponding field of the record as laid out by the format: no field is read from the wrong place, with the wrong type, dropped or swapped, and all points, counties, tracks and other repeated items are returned in order and exactly as many as stated.',
  ['inputs','configurations'],'all contents of all fields of each element type and version, both byte orders, item counts within bounds',
  'Sample files exercise one instance of some types; many attributes are zero there, so fields mixed up with neighbours look right.',
  [DV],[('record layouts and element construction','decode/vgf.py:VectorGraphicFile._decode_*')],
  ['attributes of the elements of the VGF reader'])
p('C23','VGF filtering, grouping and type queries are exact',
  'Filtering elements by attribute values returns exactly the elements that satisfy all (or, on request, any) of the conditions with the requested comparison; group and type queries return exactly the elements of that group or type, and the has- queries agree with the get- queries.',
  ['inputs','configurations'],'all element lists with arbitrary attributes, all comparison operators',
  'Tests filter one file by one attribute; the get/has methods for most types are never called with elements present.',
  [DV],[('filters','decode/vgf.py:VectorGraphicFile.filter_elements/get_group'),('type queries','decode/vgf.py:VectorGraphicFile.get_*/has_*')],
  ['lists and booleans returned'])
p('C24','Unused header slots do not disturb the slots in use',
  'When some row or column header slots of a GEMPAK grid, sounding or surface file are marked unused, the data of every used slot is still read with its own headers and values, as if the unused slots were not there.',
  ['inputs','configurations'],'all patterns of used and unused slots, arbitrary leftover content of unused slots',
  'Sample files and files written by the library have no unused slots before used ones.',
  [DG],[('header reading','decode/gempak.py:GempakGrid/GempakSounding/GempakSurface.__init__'),('data pointer arithmetic','decode/gempak.py:_unpack_*, gdxarray')],
  ['results of the readers'])
p('C25','Sounding interpolation stays between its neighbours and respects missing data',
  'A value interpolated between two sounding levels lies between the values at these levels, equals them at the levels, is missing if either is missing, and a wind direction is interpolated along the shorter arc and lies in [0, 360). Filling in missing levels changes no value that was not missing, and levels outside the data are not invented.',
  ['inputs'],'all real values of pressure, height, temperature, dewpoint, wind; all missing patterns within the level bound',
  'Tests compare a few soundings with reference output; wind directions across north and missing neighbours are rare there.',
  [GC],[('log-p interpolation','gemcalc.py:interp_parameters'),('gap filling','gemcalc.py:interp_missing_data, interp_logp_height, interp_logp_pressure, interp_moist_height')],
  ['values returned or filled in'])
p('C26','Merging sounding parts keeps every observation and orders levels',
  'When a sounding stored in parts (mandatory, significant, tropopause, maximum wind; below and above 100 hPa) is merged, the parameter lists all have one entry per level, every level\'s temperature and wind that is not interpolated is one reported in a part for that pressure or height, and levels above the surface are ordered by decreasing pressure. Merging ends without error for every combination of parts.',
  ['inputs','configurations'],'all values and missing patterns of one or two levels per part, all combinations of parts',
  'Sample files have complete soundings; parts missing altogether or out of order do not occur.',
  [DG,GC],[('merge','decode/gempak.py:GempakSounding._merge_sounding')],
  ['datasets returned by the sounding reader'])
p('C27','Moisture and height calculations are consistent and propagate missing data',
  'Vapor pressure grows with dewpoint, the mixing ratio is missing or positive, virtual temperature is at least the temperature, and the thickness of a layer is positive when pressure decreases upward. Each result is missing exactly when a required input is missing or the state is unphysical, never a number computed from the missing flag.',
  ['inputs'],'all real temperatures, dewpoints and pressures in atmospheric range, all missing patterns',
  'Tests check single reference values.',
  [GC],[('thermodynamic functions','gemcalc.py:vapor_pressure, mixing_ratio, virtual_temperature, scale_height, moist_hydrostatic_height')],
  ['values returned'])
p('C28','Raw report text is attached complete and with a valid time',
  'When a surface observation carries METAR or special report text, every report in the text is returned once and complete, together with the observation\'s metadata; the numeric values go with the METAR (or with the special reports when there is no METAR), never lost. A special report carries the day, hour and minute in its own text when these form a valid date, and otherwise those of the observation.',
  ['inputs'],'all times of reports and observations, text with zero, one or more reports, with and without values',
  'Sample files contain ordinary reports only.',
  [DG],[('text splitting and time stamping','decode/gempak.py:GempakSurface._process_report_text')],
  ['objects returned by the surface reader'])
p('C29','Writing depends only on what was added, not on the order or on earlier writes',
  'Writing the same file object twice produces byte-identical files, whatever was written before or stood in the file, for GEMPAK files and vector graphics files, and adding the same grids, soundings or observations in a different order produces a byte-identical file.',
  ['histories','inputs'],'all orders of adds with distinct identities; repeated writes; adds between writes; writes over existing files',
  'Tests write each file once.',
  [EG,EV],[('sorted headers','encode/gempak.py:add_grid/add_sounding/add_station'),('pointers recomputed on each write','encode/gempak.py:_set_pointers')],
  ['bytes of the written files'])
p('C30','Surface files of every layout give the same observations',
  'The same observations stored in a standard (times by stations), ship (one row) or climate (stations by times) surface file, as reals or as packed integers, in one part or several, are returned by the reader with the same metadata, times and values.',
  ['inputs','configurations'],'all header contents and values, three layouts, data types real/packed, one or two parts, absent data',
  'There is one sample file for each layout, with different contents.',
  [DG],[('layout detection','decode/gempak.py:GempakSurface._get_surface_type'),('layout-specific readers','decode/gempak.py:GempakSurface._unpack_standard/_unpack_ship/_unpack_climate')],
  ['objects returned by the surface reader'])
p('C31','Grid navigation survives write and read',
  'For each supported projection the projection type, its angles and the corner coordinates of the grid given to the writer are those the reader builds its coordinate reference system and coordinates from, to single precision, for grids given by latitude/longitude or by projected coordinates. The analysis block of a grid file of either type is read field by field.',
  ['inputs','configurations'],'all projection angles and corner coordinates, each projection the writer supports',
  'Tests try one set of angles for each projection, several of which are zero or equal.',
  [EG,DG],[('projection parameters','encode/gempak.py:GridFile._set_projection_params/_set_bbox'),('navigation block','encode/gempak.py:GridFile._write_file_headers'),('coordinate reference system','decode/gempak.py:GempakGrid._get_crs/_set_coordinates')],
  ['parameters of the coordinate reference system and coordinates of the reader'])
p('C32','Projected coordinates are geodetically correct',
  'The latitude and longitude the grid reader reports for a grid point are those of the point in the file\'s map projection on the GEMPAK sphere.',
  ['inputs'],'all projections and grid points','Tests compare a few points.',
  [DG],[('projection library','decode/gempak.py:GempakGrid._set_coordinates (pyproj)')],['lat/lon coordinates of the reader'])
p('C33','What a file cannot hold is refused and leaves everything as it was',
  'Whatever is added to a grid, sounding or surface file and written is either read back as it was given or refused with an error, at the latest when the file is written; what can be stored is accepted. Refused are dates whose year is not one of 1969 to 2068 (the file keeps two digits), forecast times that are not as documented, parameter names of more than 4 (grids: 12) bytes, numbers of more than 32 bits, grids of another shape, soundings of unequal or too many levels, missing or unknown parameters, and entries there is no room for. A refused addition leaves no trace in what is written later, and a write that fails (also of a vector graphics file) leaves the file at the path as it was.',
  ['inputs','histories'],'all dates, forecast texts, integers and identities; every kind of entry that does not fit; all orders of accepted and refused additions within the bounds',
  'Tests add things that fit, and check the error for a few that do not.',
  [EG,'src/gempakio/encode/vgf.py'],[('validation of what is added','encode/gempak.py:add_grid/add_sounding/add_station/_validate_date/_add_headers'),('words of the file','encode/gempak.py:GempakStream'),('writing','encode/gempak.py:to_gempak, encode/vgf.py:VGFile.to_vgf')],
  ['errors raised','bytes written','objects read back'])
p('C34','A file cut short is never misread',
  'Reading a grid, sounding, surface or vector graphics file of which only the first bytes are there, as an interrupted copy or download leaves it, either fails with an error or gives what the whole file gives. Entries of a grid, sounding or surface file are never dropped, shortened or given other values without an error, also when they are asked for one by one. From a vector graphics file come the elements that lie before the end, each as it is in the whole file.',
  ['inputs','crash_points'],'every number of bytes at which a file can end, for each kind and layout of file and each type of record',
  'Tests read whole files.',
  ['src/gempakio/tools.py',DG,DV],[('reading of bytes, structures and arrays','tools.py:IOBuffer'),('headers, pointers and data','decode/gempak.py'),('records','decode/vgf.py:VectorGraphicFile._decode_elements')],
  ['errors raised','objects returned'])
p('C35','The JSON export of a VGF file holds every element with all of its contents',
  'For every vector graphics file that can be read, to_json gives the elements in their order, each with everything the element holds (also the attributes of the lines, barbs and hashes of a jet and of the parts of a tropical cyclone), as it was decoded: integers and texts exactly, numbers of arrays to a hundredth, times as ISO 8601 text. The elements themselves are not changed by it.',
  ['inputs'],'all contents of the fields of one record of each type of element',
  'Tests do not export.',
  [DV],[('export','decode/vgf.py:VectorGraphicFile.to_json'),('values without a JSON form','decode/vgf.py:NumpyEncoder.default')],
  ['text returned by to_json'])
p('C36','What a reader cannot decode is refused, and the rest stays readable',
  'Reading fails with an error, and gives no data, for a file that does not begin as a GEMPAK file does, a grid of a packing or a projection the reader does not know, a part of a sounding or surface report of a type it does not know, a navigation or analysis block of another size than the format has, packed words or levels of a sounding whose number does not fit the parameters, a surface file whose rows and columns are of no known layout, and a merged sounding with neither pressure nor height. A grid that can be decoded is returned, when it is asked for by itself, also from a file that holds others that cannot.',
  ['inputs'],'all types, sizes, names and texts the reader does not know, with any words behind them',
  'Tests read files that can be decoded, and only a few that cannot.',
  [DG],[('file and block headers','decode/gempak.py:GempakFile.__init__/_process_gempak_header'),('packings','decode/gempak.py:GempakGrid._unpack_grid'),('projections','decode/gempak.py:GempakGrid._get_crs'),('data types and layouts','decode/gempak.py:GempakSounding/GempakSurface')],
  ['errors raised','objects returned'])
here=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here,'properties.jsonl'),'w') as f:
    for x in P:
        assert len(x['title'])<=80,(x['id'],len(x['title']))
        f.write(json.dumps(x)+'\n')
print(len(P))
