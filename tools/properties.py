#!/usr/bin/env python3
"""Writes properties.jsonl"""
import json, os

P = []


def p(id, title, statement, text, why, files, mechanism, observe, over=('inputs',), state=()):
    P.append({'id': id, 'title': title, 'statement': statement,
              'quantifier': {'over': list(over), 'text': text},
              'why_tests_cant': why,
              'anchors': {'files': files, 'mechanism': [{'name': n, 'where': w} for n, w in mechanism],
                          'state': [{'name': n, 'meaning': m, 'where': w} for n, m, w in state],
                          'observe_at': observe, 'hook_needed': None}})


p('P01', 'Octets are one frame of one format, or are refused',
  'Data is accepted as a Mode S frame exactly when its first five bits announce a known downlink format (0, 4, 5, 11 in 56 bits; 16 to 21, and 24 to 31 as the one Comm-D format, in 112 bits), its length is exactly the one of the format, and the altitude code, if the format has one (0, 4, 16, 20), is legal. '
  'An accepted frame is reported with the number and the name of its format; everything else, whatever its length and content, gives an error and no frame.',
  'every sequence of octets, of every length',
  'Tests read a handful of frames of each format, all well formed; classification is a function of all lengths, all first octets, all altitude codes.',
  ['pkg/modes/reader/reader.go', 'pkg/modes/messages'], [('dispatch on the downlink format and length', 'pkg/modes/reader/reader.go ReadMessage'), ('validation by the reader of each format', 'pkg/modes/messages/df*.go')],
  ['ReadMessage: result, error; GetDownLinkFormat; GetName'])
p('P02', 'Every header field of a frame is the value of its own bits',
  'For every accepted frame, each field that the format defines (vertical status, cross-link, sensitivity level, reply information, flight status, downlink request, utility message identifier and designator, capability, announced address, control field, application field, ELM control and segment number) has exactly the value of the bits that the standard assigns to it, and of no other bits. '
  'The 56 or 80 bits message fields (MV, ME, MB, MD) are returned octet for octet, and the octets of the frame (payload, parity, first field) are kept as they are.',
  'every accepted frame of every format: all the values of each field, whatever the other bits are',
  'Tests sample one or two values of each field, with the other bits constant: a neighbour bit read by mistake, or a mask too short, is not seen.',
  ['pkg/modes/messages', 'pkg/modes/fields'], [('extraction of the fields', 'pkg/modes/fields/*.go Read*'), ('composition per format', 'pkg/modes/messages/df*.go Parse*')],
  ['fields of the messages returned by ReadMessage'])
p('P03', 'Parity: genuine frames pass, corrupted squitters and unknown addresses do not',
  'The 24 bits parity is computed over the whole frame with the Mode S polynomial: an extended squitter (formats 17, 18) passes exactly when its parity is right, and then gives its announced address; every error of a few bits, or burst of less than 25 bits, that leaves the format alone is refused. '
  'For the other formats the overlay of the parity is returned as the address (for format 11 as the interrogator identifier), and the frame is refused exactly when a non-empty set of known addresses (for format 11 of known interrogators) is given that does not contain it.',
  'every frame of both lengths, every error pattern, every set of known addresses and of interrogators',
  'Tests have no case of the parity check at all; error patterns and sets of addresses are beyond enumeration by examples.',
  ['pkg/modes/reader/crc.go'], [('table driven cyclic redundancy check', 'pkg/modes/reader/crc.go'), ('decision per downlink format', 'pkg/modes/reader/crc.go CheckCRC')],
  ['CheckCRC: address, error'])
p('P04', 'Altitude codes are decoded exactly, or refused when illegal',
  'Each of the 8192 altitude codes of 13 bits of a frame gives the altitude of the standard and its encoding: unavailable when all the bits are zero, metric when the M bit is set, 25 ft increments from -1000 ft when the Q bit is set, otherwise the 100 ft increments of the Gillham code from -1200 ft; an illegal combination of the C pulses refuses the frame. '
  'Only the bits of the code count.',
  'all the codes, in every format that has one, whatever the other bits are',
  'Tests decode a few codes; the Gillham code is a table of 2048 entries in which one exchanged pulse changes values only for some of the codes.',
  ['pkg/modes/fields/altitude_code.go', 'pkg/bitutils/gillham.go'], [('bits of the code', 'pkg/modes/fields/altitude_code.go'), ('Gillham decoding', 'pkg/bitutils/gillham.go')],
  ['altitude and encoding method of the messages DF0, DF4, DF16, DF20'])
p('P05', 'Identity codes are decoded exactly, and emergencies are recognised',
  'Each of the 8192 identity codes of formats 5 and 21 gives the four octal digits ABCD of its pulses, whatever the other bits are. '
  'Emergency (7700), lost communications (7600), hijacking (7500) and VFR conspicuity (2000) are flagged exactly for these codes.',
  'all the codes, in both formats, whatever the other bits are',
  'Tests decode a few codes; the twelve pulses are interleaved and a swapped pair shows only in the codes where they differ.',
  ['pkg/modes/fields/identity.go'], [('bits of the code', 'pkg/modes/fields/identity.go ReadIdentity')],
  ['identity of the messages DF5 and DF21'])
p('P06', 'ADS-B messages are read as their type code and version require',
  'For every 56 bits message and every version 0, 1, 2 of ADS-B, the type code decides the kind of the result: 0 no position, or a position of type 0 when there is something after the altitude; 1-4 identification, 5-8 surface position, 9-18 and 20-22 airborne position, 19 velocity, 28 status, 29 target state, 31 operational status; positions are of the version asked for. '
  'The other type codes, the other versions for positions, a message of another length and subtypes that are not defined are errors; an operational status reports the version that is written in it, the other messages the version they are read with.',
  'every message, every version',
  'Tests call the dispatcher with a few type codes only, and no invalid version or length.',
  ['pkg/adsb/reader/reader.go', 'pkg/adsb'], [('dispatch on type code and version', 'pkg/adsb/reader/reader.go'), ('readers of each version', 'pkg/adsb/*/*.go')],
  ['ReadADSBMessage: kind of the result, GetMessageFormat, GetSubtype, GetRegister, ADS-B level, error'])
p('P07', 'Airborne positions: every field is the value of its own bits',
  'For every airborne position (type codes 9-18, 20-22, and type 0), the surveillance status, the single antenna flag, the time synchronisation, the CPR format, the 17 bits of latitude and the 17 bits of longitude are the values of their bits; the 12 bits altitude is the standard one (25 ft increments from -1000 ft with Q, Gillham otherwise) and an illegal altitude refuses the message. '
  'The altitude is from GNSS exactly for the type codes 20 to 22, barometric for the others.',
  'every message of these type codes',
  'Tests read one or two positions; each field must be right for all the values of the others.',
  ['pkg/bds/bds05', 'pkg/adsb/airborne_position'], [('extraction of fields', 'pkg/bds/bds05/fields/*.go'), ('altitude', 'pkg/bds/bds05/fields/altitude.go')],
  ['fields of the airborne positions, read directly and as ADS-B messages'])
p('P08', 'The integrity of positions follows type code, NIC supplements and version',
  'For every position message, version of ADS-B and values of the NIC supplements A, B and C, the containment radius and the navigation integrity category are the ones of the tables of the standard for this version. '
  'The supplements that a version does not use change nothing, and a supplement B is taken from the message itself.',
  'all type codes of positions x versions x supplements',
  'Tests check at most one row of each table, and the supplements are independent inputs.',
  ['pkg/adsb/airborne_position', 'pkg/adsb/surface_position'], [('tables of the containment', 'pkg/adsb/airborne_position/airborne_position_v*.go, pkg/adsb/surface_position/surface_position_v*.go')],
  ['containment radius, NIC, supplements of the positions read by ReadADSBMessage'], over=('inputs', 'configurations'))
p('P09', 'Surface positions: movement, track and coordinates are the value of their bits',
  'For every surface position (type codes 5-8), the movement code 0 to 127 gives the status and the speed of the standard (unavailable, stopped, the seven ranges of increments, above 175 knots, reserved codes), the track is 360/128 degrees per unit with its validity bit, and time synchronisation, CPR format, latitude and longitude are the value of their bits. '
  'A message of any other type code is refused.',
  'every message: all the movement codes, tracks, coordinates',
  'Tests read a couple of positions; the speed is a piecewise function of 128 codes.',
  ['pkg/bds/bds06', 'pkg/adsb/surface_position'], [('movement', 'pkg/bds/bds06/fields/movement.go'), ('fields', 'pkg/bds/bds06/fields/*.go')],
  ['fields of the surface positions'])
p('P10', 'Identifications give the eight characters and the category of the aircraft',
  'For every identification, as an extended squitter (type codes 1-4) or as a ground initiated register (2,0), the eight 6 bits codes give the eight characters of the standard in order (letters, digits, space; the other codes are not legal characters), and the type code with the category bits give the category of the aircraft. '
  'A register 2,0 with a character that is not legal is not coherent; another type code or register number is refused.',
  'every message: all the codes in all the positions, all the categories',
  'Tests read a few call signs: most of the 64 codes in most of the eight positions (that cross octets differently) are never seen.',
  ['pkg/bds/bds08', 'pkg/bds/bds20', 'pkg/bds/encoding'], [('characters', 'pkg/bds/encoding/identification.go'), ('categories', 'pkg/bds/bds08/fields/*.go')],
  ['identification, category, coherency'])
p('P11', 'Velocities: signs, units, availability, and the speed and track that result',
  'For every velocity message of the subtypes 1 to 4, each component (east-west, north-south, airspeed, heading, vertical rate, height difference) has its sign, its unit (supersonic subtypes count by four knots) and is told unavailable or over its maximum exactly as the standard says; the uncertainty, intent change, IFR capability and the source of the vertical rate are the value of their bits; other subtypes are refused. '
  'The ground speed and the track computed from two available components are the length (rounded down) and the direction, clockwise from the north, of the vector; nothing is computed when a component is not available.',
  'every message of each subtype; all pairs of components',
  'Tests read one message per subtype: the quadrants, zeros, maxima and signs of the components are combinations.',
  ['pkg/bds/bds09'], [('fields', 'pkg/bds/bds09/fields/*.go'), ('ground speed and track', 'pkg/bds/bds09/airborne_velocity_ground_speed_*.go')],
  ['fields of the velocities; ground speed; track'])
p('P12', 'Aircraft status: emergency, identity code and advisory are read exactly',
  'For every aircraft status (type code 28), subtype 0 and 1 give the emergency state and, for subtype 1, the Mode A code of their bits, subtype 2 gives the resolution advisory that follows; the bits that are reserved must be zero or the message is refused, and another subtype or type code is refused. '
  'Reserved emergency states make the message not coherent.',
  'every message of type code 28',
  'Tests read one emergency.',
  ['pkg/bds/bds61'], [('readers of the subtypes', 'pkg/bds/bds61/*.go')], ['fields, coherency and error of the aircraft statuses'])
p('P13', 'Target state and status: selected values, modes and accuracies are read exactly',
  'For every target state and status (type code 29) of subtype 0 (version 1) and 1 (version 2), the selected or target altitude, pressure setting, heading, their sources and availability, the modes, and the accuracy and integrity categories are those of the bits that the standard assigns to them; the reserved bits of subtype 0 must be zero. '
  'The other subtypes are refused.',
  'every message of type code 29: all the values of each field, whatever the others are',
  'Tests read one or two messages.',
  ['pkg/bds/bds62'], [('fields', 'pkg/bds/bds62/fields/*.go'), ('readers', 'pkg/bds/bds62/*.go')], ['fields and error of the target states'])
p('P14', 'Operational status: capabilities, modes and quality are read for each version',
  'For every operational status (type code 31) of the versions 0, 1 and 2, airborne and surface, every capability, operational mode, supplement, accuracy, integrity, antenna offset and dimension is the value of the bits that this version of the standard assigns to it. '
  'A message whose mandatory zero bits are not zero, or of an unknown version or subtype, is refused.',
  'every message of type code 31: all the values of each field, for each version and subtype',
  'Tests read two version 2 messages; versions 0 and 1 are not tested.',
  ['pkg/bds/bds65'], [('fields', 'pkg/bds/bds65/fields/*.go'), ('readers', 'pkg/bds/bds65/*.go')], ['fields and error of the operational statuses'])
p('P15', 'Comm-B replies give every register that is coherent with them, and no other',
  'For every 56 bits Comm-B message, the result is exactly the list of the registers among 1,0 1,7 3,0 4,0 4,4 4,5 5,0 6,0 whose reader accepts the message and finds it coherent, each with its decoded content and always in the same order. '
  'An empty message, an extended squitter status and an identification are recognised first, and then alone; data of another length is an error.',
  'every message',
  'Tests have no case of the inference; it is a conjunction of ten readers on the same bits.',
  ['pkg/commb/reader.go'], [('cascade of the readers', 'pkg/commb/reader.go ReadCommBMessage'), ('coherency of each register', 'pkg/bds/bds*/ CheckCoherency')],
  ['registers and contents returned by ReadCommBMessage'])
p('P16', 'Enhanced surveillance registers 4,0 5,0 6,0: values, units, signs, coherency',
  'For every content of the registers 4,0 5,0 and 6,0, each value (selected altitudes, pressure, roll, track, ground speed, track rate, airspeeds, heading, Mach, vertical rates) has the bits, sign (two\'s complement) and unit of the standard, together with its status bit. '
  'The content is coherent exactly when it has at least one value, no value without its status, and values within their operational limits; reserved bits that are not zero refuse it.',
  'every content: all the values of each field, both signs, all the statuses',
  'Tests read one message of each register, with few negative values and no incoherent one.',
  ['pkg/bds/bds40', 'pkg/bds/bds50', 'pkg/bds/bds60'], [('fields', 'pkg/bds/bds{40,50,60}/fields/*.go'), ('coherency', 'pkg/bds/bds{40,50,60}/*.go')], ['fields, coherency and error of the registers'])
p('P17', 'Meteorological registers 4,4 and 4,5: values, units, signs, coherency',
  'For every content of the registers 4,4 and 4,5, in each version of their format, the wind, temperature, pressure, humidity, turbulence, wind shear, microburst, icing, wake vortex and radio height are those of the bits of the version, with their status, and the version is chosen by the content. '
  'The content is coherent exactly when it has at least one value, no value without its status and values within physical limits.',
  'every content, in each version',
  'Tests read one message of some of the versions.',
  ['pkg/bds/bds44', 'pkg/bds/bds45'], [('fields', 'pkg/bds/bds{44,45}/fields/*.go'), ('versions', 'pkg/bds/bds44/*.go, pkg/bds/bds45/*.go')], ['fields, coherency and error of the registers'])
p('P18', 'Capability registers 0,0 0,7 1,0 1,7 are read bit for bit',
  'For every content of the registers 0,7 1,0 and 1,7, each capability, status, subnetwork version and throughput is the value of its bits; reserved bits that are not zero, or another register number, refuse the content; the register 0,0 is read only when all the bits are zero. '
  'A content with reserved codes is not coherent.',
  'every content: all the values of each field',
  'These registers have no test, but the empty one.',
  ['pkg/bds/bds00', 'pkg/bds/bds07', 'pkg/bds/bds10', 'pkg/bds/bds17'], [('fields', 'pkg/bds/bds10/fields/*.go'), ('readers', 'pkg/bds/bds{00,07,10,17}/*.go')], ['fields, coherency and error of the registers'])
p('P19', 'ACAS resolution advisories: sense, complements and threat identity are exact',
  'For every resolution advisory (in the register 3,0, in an extended squitter, alone), the active advisory (one threat, several threats, or none), each of its bits, the complements, the termination and the multiple threat indicators are the value of their bits. '
  'The identity of the threat is what the type indicator says: an address, or an altitude (100 ft codes), a range and a bearing with their units and limits; an illegal threat altitude refuses the message.',
  'every advisory: all the values of each field',
  'Tests read a few advisories; the threat altitude, range and bearing are sampled at a few points.',
  ['pkg/acas/ra', 'pkg/bds/bds30'], [('fields', 'pkg/acas/ra/fields/*.go'), ('reader', 'pkg/acas/ra/resolution_advisory.go')], ['fields and error of the advisories'])
p('P20', 'Airborne CPR: an even and an odd report give the position of the last one',
  'For every pair of codes, even and odd, the airborne global decoding gives the position that the standard defines for the most recent report, with latitude in -90..90 and longitude in -180..180; a position that is encoded, even and odd, with the two reports close to each other, is found again within the resolution of the encoding. '
  'The decoding is refused exactly when the two latitudes are in different longitude zones or out of range, and never returns a position in that case.',
  'all the pairs of 17 bits codes, both orders; all flights, at all latitudes, across the equator, the antimeridian, the poles and the zone transitions',
  'Tests decode a few pairs in Europe; the failures are at the transitions of the zones, near poles and in other hemispheres.',
  ['pkg/geo/cpr_airborne_global_position.go', 'pkg/geo/cpr_common.go'], [('global decoding', 'pkg/geo/cpr_airborne_global_position.go'), ('number of zones', 'pkg/geo/cpr_common.go')],
  ['position or error'], over=('inputs', 'histories'))
p('P21', 'Surface CPR: the two reports give the solution nearest to the reference',
  'For every pair of surface codes, even and odd, and every reference, the surface global decoding gives, among the solutions of the standard for the most recent report, the one nearest to the reference in hemisphere and in longitude (across the antimeridian too), within -90..90 and -180..180. '
  'It is refused exactly when the two latitudes are in different longitude zones.',
  'all the pairs of 17 bits codes, both orders, all references',
  'Tests decode a few pairs near one reference.',
  ['pkg/geo/cpr_surface_global_position.go', 'pkg/geo/cpr_common.go'], [('global decoding', 'pkg/geo/cpr_surface_global_position.go')],
  ['position or error'], over=('inputs', 'histories'))
p('P22', 'Local CPR: one report and a near reference give the exact position',
  'For every code, format (even or odd) and reference, the local decoding, airborne and surface, gives the point that has this code and that is the nearest to the reference, in latitude and in longitude (modulo a turn). '
  'So a position that is encoded is found again within the resolution from any reference that is closer than half a zone.',
  'all the codes, all references, both formats, airborne and surface',
  'Tests decode a few codes in one region.',
  ['pkg/geo/cpr_airborne_local_position.go', 'pkg/geo/cpr_surface_local_position.go', 'pkg/geo/cpr_common.go'], [('local decoding', 'pkg/geo/cpr_*_local_position.go')],
  ['position'], over=('inputs', 'histories'))
p('P23', 'The ground distance is the great circle distance, in metres',
  'For any two points the distance is finite, not negative, symmetric, at most half of the circumference, and equal to the length of the great circle on a sphere of 6371 km, for close points, antipodal points, poles and across the antimeridian.',
  'all pairs of points',
  'Tests compute two distances.',
  ['pkg/geo/ground_distance.go'], [('haversine formula', 'pkg/geo/ground_distance.go')], ['distance'])
p('P24', 'The text of a message tells exactly its decoded content',
  'For every message that is read, frame, ADS-B message or register, its text has one line per field, in the order of the definition, with the name of the field, and the decoded value with its unit or the meaning of its code in the standard. '
  'Every code of every field has a text; two contents that differ have texts that differ.',
  'every message: all the codes of each field',
  'Tests check the text of very few messages; a swapped label or a missing case shows only for its own code.',
  ['pkg/modes', 'pkg/bds', 'pkg/adsb', 'pkg/acas'], [('texts of the fields', 'pkg/**/fields/*.go ToString'), ('texts of the messages', 'pkg/**/*.go ToString')], ['ToString of the messages'])
p('P25', 'The command line decodes any file or line and prints what it holds',
  'For every line given in a file or as an argument, and for each reader level 0, 1, 2, the program prints the line, then either why it is refused (not hexadecimal, not a frame, wrong parity) or the address or interrogator, the content of the frame, and the content of the ACAS, ADS-B or Comm-B message that it holds, read at the level asked for. '
  'A bad line never prevents the following ones from being decoded.',
  'all sequences of lines, valid or not, all the reader levels',
  'The program has no test at all.',
  ['cmd/main.go'], [('processing of a line', 'cmd/main.go processSingleLine')], ['standard output and exit status of the program'], over=('inputs', 'histories', 'configurations'))
p('P26', 'Decoding is total, pure and deterministic, also from concurrent callers',
  'Every decoding function, given any octets, codes, references (infinite or not a number too) and parameters, returns a result or an error: it never stops the program, and never changes the octets it is given. '
  'The same call always has the same result, whatever was decoded before, in whatever order, and by however many callers at the same time, also when they share the octets or the decoded message.',
  'all inputs, all orders of calls, all schedules of concurrent callers',
  'Tests call each function once, sequentially, with well formed data.',
  ['pkg'], [('no shared state', 'pkg/**'), ('length checks of the readers', 'pkg/bds/bds*/*.go, pkg/modes/reader/reader.go, pkg/adsb/reader/reader.go, pkg/commb/reader.go')],
  ['results, panics and inputs after the calls'], over=('inputs', 'schedules', 'histories'))
p('P27', 'A receiver built on the library recovers the flight from its transmissions',
  'For every flight (identity, movement, altitude, velocity, ADS-B version) whose transponder encodes its state as the standard says, the sequence read frame, check parity, read ADS-B message, decode position gives back at each transmission the address, the identification, the altitude, the velocity, the resolution advisory, the containment radius (which depends on the version and on the supplements of the last status) and, as soon as one even and one odd report are recent, the position within the resolution of the encoding. '
  'Corrupted or interleaved transmissions of other aircraft never change what is known of a flight.',
  'all flights and interleavings of transmissions, with losses and corruptions',
  'Tests check each function alone; the composition (parity, address, type code, CPR format and order of reports) is a property of histories.',
  ['pkg/modes/reader', 'pkg/adsb/reader', 'pkg/geo', 'pkg/bds'], [('composition of the readers', 'pkg/modes/reader, pkg/adsb/reader, pkg/geo')],
  ['results of the successive calls'], over=('histories', 'inputs', 'fault_sequences'))
p('P28', 'The building blocks used alone say the same as the readers that compose them',
  'Each exported part of the library keeps its contract when it is called on its own. The parser of one downlink format, and the reader of one ADS-B message, accept exactly the data of their format or type code and give what the general reader gives, and refuse the others, of any length. '
  'Every value of every coded field has a text: its meaning, which no other value of the field has, or that it is unknown. Containment radii, registers, versions and addresses are named exactly, the bits and octets are packed in order, and the Gillham pulses give the altitude or an error.',
  'all the values of each code, all the octets and versions for each parser and reader',
  'Tests call each of them on one well formed example; most of the values of the codes are never shown by a test.',
  ['pkg/modes/messages', 'pkg/adsb', 'pkg/bds', 'pkg/bitutils', 'pkg/modes/common'],
  [('parsers of the formats', 'pkg/modes/messages/df*.go'), ('readers of the ADS-B messages', 'pkg/adsb/*/*.go'), ('texts of the codes', 'pkg/**/fields/*.go'), ('packing and Gillham code', 'pkg/bitutils')],
  ['parsers, readers and ToString called directly'])

with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl'), 'w') as f:
    for x in P:
        f.write(json.dumps(x) + '\n')
