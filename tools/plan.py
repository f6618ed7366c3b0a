"""What each check runs."""

READER_MODEL = {"spec": "MCReader", "cfg": "MCReader.cfg", "quick": {"MaxOps": 4}, "thorough": {"MaxOps": 9, "Tmps": 2}}
READER_SCEN = {"spec": "MCReader", "cfg": "SimReader.cfg", "suite": "reader", "trace": "RdTrace", "quick": 150, "thorough": 3000}


def reader(quick, thorough):
    return {"suite": "reader", "trace": "RdTrace", "quick": quick, "thorough": thorough}


PLAN = {
    "C01": {
        "note": "ReaderImpl (buffers, inflater, arbitrary transport) is checked exhaustively to refine Reader; sessions of the "
                "real reader (random, exhaustive chunkings of short streams, behaviours simulated from the model) are validated "
                "against Reader event by event.",
        "models": [READER_MODEL], "scenarios": [READER_SCEN], "suites": [reader(500, 20000)],
    },
}
for _p, _n in (("C02", "limits"), ("C03", "compressed sections")):
    PLAN[_p] = dict(PLAN["C01"], note=PLAN["C01"]["note"] + " The sessions concentrate on " + _n + ".")

WRITER_MODEL = {"spec": "WriterImpl", "cfg": "MCWriter.cfg", "quick": {"MaxOps": 3}, "thorough": {"MaxOps": 5}}
WRITER_SCEN = {"spec": "WriterImpl", "cfg": "SimWriter.cfg", "suite": "writer", "trace": "WrTrace", "quick": 300, "thorough": 6000}


def writer(quick, thorough):
    return {"suite": "writer", "trace": "WrTrace", "quick": quick, "thorough": thorough}


WRITER_NOTE = ("WriterImpl (bufio over transport or compressor, time-outs, hooks, faults anywhere) is checked exhaustively to refine "
               "Writer; sessions of the real writer (random, faults enumerated over bytes and calls, behaviours simulated from the "
               "model) are validated against Writer call by call; the wire is decoded by an independent peer after every call.")
PLAN["C04"] = {"note": WRITER_NOTE + " What the real writer wrote is also read back by the real reader.",
               "models": [WRITER_MODEL], "scenarios": [WRITER_SCEN], "suites": [writer(1500, 40000), reader(250, 8000)]}
PLAN["C05"] = {"note": WRITER_NOTE, "models": [WRITER_MODEL], "scenarios": [WRITER_SCEN], "suites": [writer(1500, 40000)]}
PLAN["C06"] = {"note": WRITER_NOTE, "models": [WRITER_MODEL], "scenarios": [WRITER_SCEN], "suites": [writer(1500, 40000)]}

NR_MODEL = {"spec": "MCNr", "cfg": "MCNr.cfg", "quick": {}, "thorough": {"MaxFrames": 2, "MaxCalls": 3}, "workers": 6}
NR_SCEN = {"spec": "MCNr", "cfg": "SimNr.cfg", "suite": "nmdcread", "trace": "NrTrace", "depth": 120, "quick": 250, "thorough": 5000}


def nmdcread(quick, thorough):
    return {"suite": "nmdcread", "trace": "NrTrace", "quick": quick, "thorough": thorough}


NR_NOTE = ("MCNr enumerates all short sessions of NmdcReadSession (every frame kind, hook and call-back decision, typed reads) "
           "against invariants stated on the whole history; sessions of the real nmdc.Reader (random streams of generated, "
           "mutated and malformed frames over any chunking and compressed sections; behaviours simulated from MCNr) are "
           "validated against NmdcReadSession event by event.")

NW_MODELS = [{"spec": "MCNw", "cfg": "MCNw.cfg", "quick": {}, "thorough": {}},
             {"spec": "MCNw", "cfg": "MCNw.cfg", "quick": {"MaxBatches": 2, "MaxBatch": 1}, "thorough": {"MaxBatches": 3, "MaxBatch": 1}}]


def nmdcwrite(quick, thorough):
    return {"suite": "nmdcwrite", "trace": "NwTrace", "quick": quick, "thorough": thorough}


NW_NOTE = ("MCNw composes a writing session with the reading of what was written, for all small batches, hook decisions and agreed "
           "changes of the encoding; sessions of the real nmdc.Writer (batches of generated messages, hooks, encodings, "
           "compression, failing transports, messages scrambled after writing) are validated against NmdcWriteSession.")


def nmdccodec(quick, thorough):
    return {"suite": "nmdccodec", "trace": "NmdcCodec", "quick": quick, "thorough": thorough}


def nmdcall(cs, quick, thorough):
    """Every message of MCNmdc over small domains: round trip in the specification, a sample (or all) with the real code."""
    return {"spec": "MCNmdc", "cfg": "MCNmdc.cfg", "all": True, "const": {"Charset_": '"%s"' % cs}, "suite": "nmdccodec", "trace": "NmdcCodec",
            "name": "nmdccodec-all-" + cs, "quick": quick, "thorough": thorough, "workers": 4}


NC_NOTE = ("MCNmdc enumerates every message type over small domains of field values and shows in the specification (NmdcMsg: encoder "
           "and decoder of each command, written from the protocol grammar) that what can be represented survives as one frame; those "
           "messages and random ones are encoded and decoded by the real code and compared with the specification, as are "
           "frames written by other clients, mutated frames and token sequences of each grammar.")
PLAN["C07"] = {"note": NR_NOTE + " " + NW_NOTE, "models": [NR_MODEL] + NW_MODELS, "scenarios": [NR_SCEN],
               "suites": [nmdcread(800, 40000), nmdcwrite(800, 40000), reader(100, 4000), writer(400, 10000)]}
PLAN["C08"] = {"note": NR_NOTE, "models": [NR_MODEL], "scenarios": [NR_SCEN], "suites": [nmdcread(2000, 80000)]}
PLAN["C09"] = {"note": NC_NOTE + " " + NR_NOTE, "models": NW_MODELS[:1], "scenarios": [nmdcall("cp1251", None, 0), nmdcall("gbk", 3000, 0)],
               "suites": [nmdccodec(2500, 100000), nmdcread(800, 40000), nmdcwrite(500, 20000)]}
PLAN["C10"] = {"note": NC_NOTE, "models": [], "scenarios": [nmdcall("utf8", 5000, 0), nmdcall("gbk", None, 0)],
               "suites": [nmdccodec(6000, 200000)]}
PLAN["C11"] = {"note": NC_NOTE + " " + NW_NOTE, "models": NW_MODELS, "scenarios": [nmdcall("utf8", 8000, 0), nmdcall("cp1251", None, 0)],
               "suites": [nmdccodec(5000, 200000), nmdcwrite(800, 40000)]}
PLAN["C12"] = {"note": NC_NOTE, "models": [], "scenarios": [nmdcall("utf8", 4000, 0)], "suites": [nmdccodec(7000, 300000), nmdcread(400, 20000)]}


def adccodec(quick, thorough, **kw):
    return dict({"suite": "adccodec", "trace": "AdcCodec", "quick": quick, "thorough": thorough}, **kw)


def adcpacket(quick, thorough, **kw):
    return dict({"suite": "adcpacket", "trace": "PacketCases", "quick": quick, "thorough": thorough}, **kw)


def adcread(quick, thorough, **kw):
    return dict({"suite": "adcread", "trace": "ArTrace", "quick": quick, "thorough": thorough}, **kw)


def adcwrite(quick, thorough, **kw):
    return dict({"suite": "adcwrite", "trace": "AwTrace", "quick": quick, "thorough": thorough}, **kw)


def adcall(quick, thorough):
    return {"spec": "MCAdc", "cfg": "MCAdc.cfg", "all": True, "suite": "adccodec", "trace": "AdcCodec", "name": "adccodec-all",
            "quick": quick, "thorough": thorough, "workers": 4}


AC_NOTE = ("MCAdc enumerates every ADC message type over small domains of values and shows in the specification (AdcMsg: the parameter "
           "grammar, the tags of each message, the value syntaxes) that what can be represented survives and that the order of parameters "
           "does not matter; those messages, parameter lists of other software, lists with values of every kind under every name and "
           "random and mutated ones are encoded and decoded by the real code and compared with the specification.")
PLAN["C14"] = {"note": AC_NOTE, "models": [], "scenarios": [adcall(16000, 0)], "suites": [adccodec(8000, 300000)]}
PLAN["C15"] = {"note": AC_NOTE, "models": [], "scenarios": [adcall(10000, 0)], "suites": [adccodec(12000, 300000)]}

PK_NOTE = ("MCPacket enumerates packets of all seven kinds and short lines over the bytes that matter against AdcPacket (round trip, "
           "canonical re-encoding, refusals); those lines, lines of other software and random and mutated ones go through DecodePacket, "
           "DecodePacketRaw, message decoding and re-encoding of the real code and are compared with the specification.")
PLAN["C16"] = {"note": PK_NOTE, "models": [],
               "scenarios": [{"spec": "MCPacket", "cfg": "MCPacket.cfg", "all": True, "suite": "adcpacket", "trace": "PacketCases",
                              "name": "adcpacket-all", "quick": 16000, "thorough": 0, "workers": 4}],
               "suites": [adcpacket(8000, 200000)]}

AS_MODEL = {"spec": "MCAs", "cfg": "MCAs.cfg", "quick": {"MaxWrites": 1}, "thorough": {"MaxWrites": 3}, "workers": 6}
AS_SCEN = {"spec": "MCAs", "cfg": "SimAs.cfg", "suite": "adcread", "trace": "ArTrace", "depth": 200, "quick": 800, "thorough": 12000}
AS_NOTE = ("MCAs composes AdcWriteSession and AdcReadSession: all short sessions of packets, keep-alives, failing messages, hooks of both "
           "sides and calls for packets of any or one kind, against invariants on the whole history; sessions of the real adc.Writer and "
           "adc.Reader (random streams, chunkings, compressed sections, failing transports, behaviours simulated from MCAs) are validated "
           "against those specifications event by event.")
PLAN["C17"] = {"note": AS_NOTE, "models": [AS_MODEL], "scenarios": [AS_SCEN], "suites": [adcread(2500, 80000), adcwrite(2500, 80000)]}

PLAN["C24"] = {"note": "In the session specifications a message handed out is part of the state (out) and the action Recheck demands that what the "
               "caller holds still equals it after any further history; the writing sessions demand that a message is unchanged by writing it and that what was "
               "accepted reaches the wire although the harness scrambles the message afterwards. Sessions of the real readers and "
               "writers, and single encodings and decodings with other work between result and inspection and with eight goroutines at "
               "once, are validated against those specifications. " + AS_NOTE,
               "models": [AS_MODEL, NR_MODEL], "scenarios": [AS_SCEN, NR_SCEN],
               "suites": [nmdcread(700, 40000), nmdcwrite(500, 20000), adcread(1000, 40000), adcwrite(800, 20000),
                          dict(nmdccodec(2500, 100000), par=8), adccodec(2500, 100000, par=8), adcpacket(2500, 60000, par=8)]}

PLAN["C18"] = {"note": "MCFeatures enumerates all short histories of cloning, updating, intersecting, encoding, receiving and changing sets over a few names "
               "and checks the algebraic laws and that only explicit changes alter a set; those histories and random ones over ADC feature sets and lists, "
               "NMDC extension sets and lists run on the real code, all sets being recorded after every operation and validated against Features.",
               "models": [{"spec": "MCFeatures", "cfg": "MCFeatures.cfg", "quick": {}, "thorough": {"MaxRegs": 4, "MaxPuts": 2}, "workers": 4}],
               "scenarios": [{"spec": "MCFeatures", "cfg": "MCFeatures.cfg", "all": True, "const": {"MaxRegs": 3}, "suite": "features", "trace": "FeTrace",
                              "name": "features-all", "quick": 4000, "thorough": 0, "workers": 4}],
               "suites": [{"suite": "features", "trace": "FeTrace", "quick": 4000, "thorough": 200000}]}

PLAN["C20"] = {"note": "MCLock enumerates all locks up to length 3 (4 in the thorough tier) over bytes that exercise every escape: the key has no reserved byte, the "
               "escapes can be undone and the lock recovered; those locks, every pair of neighbouring bytes and random locks with marker and "
               "references get their keys from the real code, compared with Lock; lock and key messages are compared with NmdcMsg.",
               "models": [], "scenarios": [{"spec": "MCLock", "cfg": "MCLock.cfg", "all": True, "suite": "lock", "trace": "LockCases", "name": "lock-all",
                                            "quick": 6000, "thorough": None, "workers": 4},
                                           {"spec": "MCLock", "cfg": "MCLock.cfg", "all": True, "const": {"MaxLen": 4}, "suite": "lock", "trace": "LockCases",
                                            "name": "lock-all-4", "quick": None, "thorough": 0, "workers": 8}],
               "suites": [{"suite": "lock", "trace": "LockCases", "quick": 4000, "thorough": 100000}, nmdccodec(2500, 60000)]}
PLAN["C21"] = {"note": "MCIds shows for short byte strings, a range of session identifiers and whole identifiers differing in few places that text and value "
               "determine each other; those values and random ones are converted by every function of the real code and back, and texts of every "
               "length, foreign characters and mutated texts are given to every parser, compared with Ids (characters beyond the 192nd bit are unspecified).",
               "models": [], "scenarios": [{"spec": "MCIds", "cfg": "MCIds.cfg", "all": True, "suite": "ids", "trace": "IdCases", "name": "ids-all",
                                            "quick": 4000, "thorough": None, "workers": 4},
                                           {"spec": "MCIds", "cfg": "MCIds.cfg", "all": True, "const": {"SidStep": 8}, "suite": "ids", "trace": "IdCases",
                                            "name": "ids-all-8", "quick": None, "thorough": 0, "workers": 8}],
               "suites": [{"suite": "ids", "trace": "IdCases", "quick": 3000, "thorough": 150000}]}

PLAN["C19"] = {"note": "MCTth is the hashing of a stream with any chunking and failure of the source and the reduction of the leaves in place: it ends, reads all, makes the "
               "leaves of the data and the root defined recursively (lists of up to 70 leaves). All its behaviours for small streams, all sizes around "
               "block edges and random streams, chunkings and failures run on the real code; TLC compares roots and leaves with Tth over hashes made with the Tiger primitive.",
               "assumes": ["the Tiger primitive (github.com/cxmcc/tiger) is right"],
               "models": [], "scenarios": [{"spec": "MCTth", "cfg": "MCTth.cfg", "all": True, "suite": "tth", "trace": "TthCases", "name": "tth-all",
                                            "quick": 0, "thorough": None, "workers": 4},
                                           {"spec": "MCTth", "cfg": "MCTth.cfg", "all": True, "const": {"MaxLen": 9, "MaxStutter": 2, "Bs": 2, "MaxLeaves": 200}, "suite": "tth", "trace": "TthCases",
                                            "name": "tth-all-9", "quick": None, "thorough": 0, "workers": 8}],
               "suites": [{"suite": "tth", "trace": "TthCases", "quick": 1500, "thorough": 60000}]}

PLAN["C22"] = {"note": "MCKeyprint enumerates small chains, announced key prints and PEM files; those and random ones run on the real code: bytes of every length around "
               "the blocks of the digest, chains, files (other blocks, text, damaged blocks, line ends, failing sources), addresses, and live TLS connections "
               "of either role (TLS 1.2 and 1.3, resumed ones, before the handshake); TLC computes the digests itself (Sha256) and compares every "
               "list, verdict and report with Keyprint.",
               "assumes": ["crypto/tls reports the certificates the peer presented"],
               "models": [], "scenarios": [{"spec": "MCKeyprint", "cfg": "MCKeyprint.cfg", "all": True, "suite": "keyprint", "trace": "KpCases", "name": "keyprint-all",
                                            "quick": 1000, "thorough": 0, "workers": 4}],
               "suites": [{"suite": "keyprint", "trace": "KpCases", "quick": 1500, "thorough": 40000}]}

PLAN["C23"] = {"note": "MCAddr builds addresses from schemes, users, hosts, ports, paths, queries and fragments (hosts, paths and queries that look like schemes, IPv6, "
               "escapes) and checks that the text determines the parts, that the canonical form is canonical and means the same, and that no two protocols claim "
               "an address; all of those and random and damaged ones are parsed and normalised by dc, nmdc and adc, and TLC splits each text and compares "
               "verdict, canonical text and parts with Addr. For texts outside that grammar only idempotence and kept meaning are checked.",
               "models": [], "scenarios": [{"spec": "MCAddr", "cfg": "MCAddr.cfg", "all": True, "suite": "addr", "trace": "AddrCases", "name": "addr-all",
                                            "quick": 8000, "thorough": None, "workers": 4},
                                           {"spec": "MCAddr", "cfg": "MCAddr.cfg", "all": True, "const": {"Few": False}, "suite": "addr", "trace": "AddrCases", "name": "addr-all-more",
                                            "quick": None, "thorough": 300000, "workers": 8}],
               "suites": [{"suite": "addr", "trace": "AddrCases", "quick": 12000, "thorough": 800000}]}

PLAN["C13"] = {"note": "Total demands of every call an outcome and of every stream progress and an end; MCTotal receives all short bodies over the bytes and words decoders look for; "
               "those, and bodies close to valid ones (all prefixes, suffixes and changes of one byte, grammar tokens, mutations, long repetitions), go through every "
               "decoder, whatever is decoded is encoded again, arbitrary values of every message are encoded, and damaged streams with compressed sections are read to "
               "their end; TLC checks the outcomes. The session specifications demand the same of whole sessions of the readers.",
               "models": [], "scenarios": [{"spec": "MCTotal", "cfg": "MCTotal.cfg", "all": True, "suite": "total", "trace": "TotalCases", "name": "total-all", "quick": 0, "thorough": None, "workers": 4},
                                           {"spec": "MCTotal", "cfg": "MCTotal.cfg", "all": True, "const": {"MaxLen": 4}, "suite": "total", "trace": "TotalCases", "name": "total-all-4", "quick": None,
                                            "thorough": 0, "workers": 8}],
               "suites": [{"suite": "total", "trace": "TotalCases", "par": 8, "quick": 24000, "thorough": 600000},
                          reader(100, 4000), nmdcread(300, 10000), adcread(400, 10000), nmdccodec(1500, 50000), adccodec(1500, 50000), adcpacket(1500, 50000)]}

PLAN["C25"] = {"note": "MCInfo enumerates statuses, all extensions in several spellings under all groups, and short client descriptions against laws of Info (severities nest, "
               "every extension is in one group, normalising ends and loses nothing); those, all bits of all flags, all commands and random ones are put to the real code and "
               "compared with Info.",
               "models": [], "scenarios": [{"spec": "MCInfo", "cfg": "MCInfo.cfg", "all": True, "suite": "info", "trace": "InfoCases", "name": "info-all",
                                            "quick": 8000, "thorough": 0, "workers": 4}],
               "suites": [{"suite": "info", "trace": "InfoCases", "quick": 6000, "thorough": 200000}]}

SESSION_TRACES = {"reader": "RdTrace", "writer": "WrTrace", "nmdcread": "NrTrace", "nmdcwrite": "NwTrace", "adcread": "ArTrace", "adcwrite": "AwTrace",
                  "nmdccodec": "NmdcCodec", "adccodec": "AdcCodec", "adcpacket": "PacketCases", "features": "FeTrace", "lock": "LockCases", "ids": "IdCases",
                  "tth": "TthCases", "keyprint": "KpCases", "addr": "AddrCases", "info": "InfoCases", "switch": "SwitchCases"}


def sessions(quick, thorough, **kw):
    return dict({"suite": "sessions", "multi": SESSION_TRACES, "quick": quick, "thorough": thorough}, **kw)


PLAN["C26"] = {"note": "Sessions enumerates all schedules of bursts of two (three) sessions over disjoint working memories, so that a process conforms exactly if each session "
               "conforms alone; sessions of all kinds of the real code (readers, writers, single encodings and decodings, sets, hashes, key prints, addresses; "
               "one message going to several peers) run under each schedule, switching in transports, hooks and between operations, under random schedules, and "
               "at once on all processors with the race detector watching that no step touches memory of another session; every session is validated "
               "against its own specification.",
               "models": [{"spec": "MCEncSwitch", "cfg": "MCEncSwitch.cfg", "quick": {}, "thorough": {"MaxSets": 4, "MaxMsgs": 4}}],
               "scenarios": [dict(sessions(0, 0), spec="Sessions", cfg="Sessions.cfg", all=True, name="sessions-schedules", workers=4),
                             dict(sessions(None, 30000), spec="Sessions", cfg="Sessions.cfg", all=True, const={"N": 3, "MaxBursts": 6, "Bursts": "{1, 3, 10}"}, name="sessions-schedules-3", workers=8)],
               "suites": [sessions(1500, 60000, name="sessions-random"), sessions(6000, 200000, name="sessions-parallel", race=True, par=16)]}

PLAN["C27"] = {"note": "MCDuplex is one direction with its machinery (write buffer, compressor that holds back, cutting transport, read buffer, inflater); it is checked "
               "exhaustively to hand out what Duplex says, to wait only when everything flushed has been handed out, and to hand out everything flushed "
               "eventually. Pairs of real writers and readers of all three kinds talk to each other in both directions over a transport that "
               "blocks when it is empty, under controlled schedules (every sequence of calls of the model, and random ones), with compression, blocks, "
               "keep-alives, questions and answers; every hand-out and every wait is validated against Duplex.",
               "models": [{"spec": "MCDuplex", "cfg": "MCDuplex.cfg", "quick": {}, "thorough": {"MaxOps": 6, "CapR": 4}, "workers": 6}],
               "scenarios": [{"spec": "MCDuplex", "cfg": "DuplexScen.cfg", "all": True, "suite": "duplex", "trace": "DuplexCases", "name": "duplex-model", "quick": 0, "thorough": 0, "workers": 6}],
               "suites": [{"suite": "duplex", "trace": "DuplexCases", "quick": 3000, "thorough": 100000}]}
