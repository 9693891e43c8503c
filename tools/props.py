COMMON = ("Exhaustive for the specification at the stated small constants; for the gateware, every recorded execution "
          "(seeded random stimuli over many configurations) is validated event by event by TLC against the same "
          "specification. Trusts Amaranth's simulator, TLC and the driver. ")
PROPS = []
NOT_APPLICABLE = []


def P(id, title, statement, over, all, why, files, mech, note="", replay=False, **kw):
    PROPS.append(dict(id=id, title=title, statement=statement, over=over, all=all, why=why, files=files, mech=mech,
                      note=COMMON + note, replay=replay, **kw))


P("F01", "Transactional FIFO: exact order, commit/discard and status",
  "A transactionalized FIFO of any depth delivers exactly the committed writes, in order, without loss or duplication: discarded writes are never "
  "seen, discarded reads are offered again from the first uncommitted entry, and the entry offered is right in every cycle in which the FIFO says it is not empty. "
  "empty, full and space_available are exact in every cycle (uncommitted writes occupy space but are not readable; uncommitted reads still occupy space), "
  "and reads from an empty or writes to a full FIFO change nothing. A commit covers what was read/written in earlier cycles.",
  ["histories", "schedules", "configurations"],
  "every sequence of read/write/commit/discard commands on both ports (no commit and discard on the same port at once), every depth and width",
  "One scripted scenario at depth 16; wrap-around at non-power-of-two depths, interleaved commit/discard on both ports and same-cycle combinations are unreached.",
  ["amlib/utils/fifo.py"], [("committed/current read and write pointers", "TransactionalizedFIFO.elaborate"), ("one-ahead read address", "TransactionalizedFIFO.elaborate")],
  "Every transition of the depth-2 state graph is replayed on the gateware; depths 1..100 random.", True)

P("S01", "Stream arbiter: lossless, uninterrupted, prioritised merging",
  "In every cycle the arbiter's output carries exactly one producer's fields and only that producer sees the consumer's ready. "
  "The selection changes only in a cycle in which the selected producer offers nothing, and then goes to the earliest-added producer offering data, so bursts are never "
  "interrupted and each producer's words arrive exactly once and in order. idle is asserted exactly when no producer offers data.",
  ["schedules", "inputs", "configurations"],
  "any number of producers, any interleaving of bursts and backpressure, any payload/valid widths and extra fields",
  "There is no test for the arbiter at all.",
  ["amlib/stream/arbiter.py", "amlib/stream/__init__.py"], [("active stream index", "StreamArbiter.elaborate")],
  "1..17 producers; the 3-producer selection state graph is replayed completely.", True)

P("S02", "Stream multiplexer connects the first valid producer, nobody else",
  "In every cycle the multiplexer's output equals the earliest-added producer that is valid (all fields), that producer alone sees the consumer's ready, and with no valid "
  "producer the output is not valid; hence, as long as only one producer talks at a time, every word is transferred exactly once.",
  ["schedules", "inputs", "configurations"], "any number of producers, any valid/ready pattern, any widths and extra fields",
  "There is no test for the multiplexer.",
  ["amlib/stream/arbiter.py", "amlib/stream/__init__.py"], [("priority If/Elif chain", "StreamMultiplexer.elaborate"), ("attach", "StreamInterface.attach")])

P("S03", "Stream links and FIFO adapters transfer every word with its marks",
  "Attaching two streams copies valid, first, last, payload and every extra field forward and ready backward, leaving omitted fields alone; a tap copies forward fields without driving "
  "the tapped stream. A stream connected into a FIFO and back out delivers the same words in order, with their first/last marks when mark bits are given, exactly once under any backpressure.",
  ["schedules", "inputs", "configurations"], "all modes (attach, connect, stream_eq, tap), omit sets, field layouts, FIFO depths and valid/ready schedules",
  "No test exercises the adapters or omit/tap.",
  ["amlib/stream/__init__.py"], [("attach/connect/stream_eq/tap", "StreamInterface"), ("connect_fifo_to_stream, connect_stream_to_fifo", "amlib/stream/__init__.py")])

P("S04", "Constant stream generator sends exactly the requested slice",
  "After a start strobe in idle the generator offers, word by word and stable until accepted, the constant data from the requested (clamped) start position to the end of the data "
  "or to max_length bytes, whichever comes first, with first only on the first word, last only on the last, and exactly the right valid lanes on the last word of multi-byte streams. done pulses once, "
  "directly after the last word was accepted; a start with max_length 0 or while busy does nothing; output_length is the lesser of data length and max_length.",
  ["inputs", "schedules", "configurations"],
  "all data lengths, widths, endiannesses, start positions, length limits (held during a transmission) and backpressure schedules",
  "Tests use one 12-byte constant with mostly ready consumers; the wide variant is skipped.",
  ["amlib/stream/generator.py"], [("IDLE/STREAMING/DONE controller, position and byte counters", "ConstantStreamGenerator.elaborate")])

P("S05", "Packet list streamer sends every packet once, in order, framed",
  "One start strobe makes the streamer send all its (non-empty) packets once, in order, every word exactly once and stable until accepted, first on the first and last on the last word of every packet, "
  "with bounded gaps; done pulses once after the last word was accepted and afterwards the list can be started again. Starts while busy are ignored.",
  ["inputs", "schedules", "configurations"], "every list of non-empty packets, data width and backpressure schedule",
  "One list of six packets (27 bytes) with a mostly ready consumer.",
  ["amlib/stream/generator.py"], [("packet position and length bookkeeping", "PacketListStreamer.elaborate")],
  "The MC composes the sequencer with the generator model and checks it against the abstract packet specification.")

P("S06", "Stream serializer sends the first max_length array elements",
  "After a start strobe in idle the serializer offers data[0..n-1], n the lesser of the array length and max_length, stable until accepted, with first/last exactly on the first/last word; done pulses once directly after the last word. "
  "A start with max_length 0 or while busy does nothing.",
  ["inputs", "schedules", "configurations"], "every array length, width, max_length (held during a transmission) and backpressure schedule",
  "There is no test.",
  ["amlib/stream/generator.py"], [("controller", "StreamSerializer.elaborate")], "State graph of the 3-word model replayed completely.", True)

P("T01", "Timer: done exactly after the loaded number of cycles, periodic reload",
  "A timer started with its counter holding n > 0 (the load value, or the reload value if load is 0, sampled in the cycle before) asserts done exactly n cycles later, counter_out counting down to it. After that it fires every r cycles "
  "while the reload value is r > 0; with r = 0 done falls after one cycle and the timer can be started again, or, without allow_restart, stays done for good. A start while running does nothing. Constant and run-time load/reload values behave identically.",
  ["histories", "inputs", "configurations"], "every counter width, load/reload value (constant or signal, changing while running) and start schedule, with and without allow_restart",
  "Tests use one or two load values each and never a load or reload of one.",
  ["amlib/utils/timer.py"], [("counter/reload state machine", "Timer.elaborate")], "Both 2-bit state graphs (restart on/off) replayed completely.", True)

P("T02", "Debouncer reports stable level changes only, each exactly once",
  "The debounced state changes only after the (synchronized) button level has differed from it for the whole debounce time without interruption, always changes then, and exactly one single-cycle down or up pulse "
  "accompanies each change (down for 0 to 1, up for 1 to 0); any glitch back restarts the wait.",
  ["histories", "inputs"], "every button waveform, glitch lengths around the debounce time",
  "There is no test.",
  ["amlib/io/debouncer.py"], [("counter", "Debouncer.elaborate")])

P("T03", "Edge detectors, past values and strobe stretching are exact",
  "In every cycle rising/falling/any-edge detectors tell exactly whether the signal rose/fell/changed since the previous cycle of their clock domain, past_value_of gives its complete previous value, and a stretched strobe is high exactly "
  "in the to_cycles cycles that begin with each strobe cycle (one later when delay is allowed and to_cycles > 1).",
  ["histories", "inputs", "configurations"], "every waveform, signal width (past, any), stretch length and clock domain",
  "Only a stretch by two and one edge waveform are tested.",
  ["amlib/utils/edgetopulse.py", "amlib/utils/__init__.py", "amlib/utils/cdc.py"],
  [("delayed signal", "_single_edge_detector, past_value_of, EdgeToPulse"), ("strobe shift register", "stretch_strobe_signal")])

P("T04", "Clock divider and dividing counter count exactly",
  "The divided clock toggles every divisor/2 cycles while enabled and returns to its idle polarity at the next toggle point when disabled. The dividing counter counts every active cycle modulo its width, its divided count advances once every `divisor` "
  "counted cycles (restarting the phase when the counter wraps), the dividable flag marks exactly those steps, and reset clears the counts.",
  ["histories", "inputs", "configurations"], "all even divisors, both polarities, all divisors/widths, every enable/active/reset schedule",
  "A single divisor and a straight run are tested.",
  ["amlib/utils/clockdivider.py", "amlib/utils/dividingcounter.py"], [("counters", "SimpleClockDivider.elaborate, DividingCounter.elaborate")])

P("T05", "Shift registers, NRZI encoder and LFSR compute their sequences",
  "Shift registers of any depth shift in/out exactly one bit per enabled cycle (least significant bit first out), load/clear take priority, and rotation reproduces the word. The NRZI output toggles exactly on one bits. The LFSR follows the recurrence of its taps "
  "from its reset value, never locks up for nonzero reset, and its hardware sequence equals its generate() reference.",
  ["histories", "inputs", "configurations"], "every depth, rotate setting, enable/load/clear schedule; every degree, tap set and reset value",
  "Tests use one depth each and a single 24-bit LFSR prefix.",
  ["amlib/utils/shiftregister.py", "amlib/utils/nrziencoder.py", "amlib/utils/lfsr.py"],
  [("registers", "InputShiftRegister, OutputShiftRegister, NRZIEncoder, LinearFeedbackShiftRegister")])

P("T06", "One-hot bus multiplexer passes exactly the valid interface",
  "In every cycle each muxed output signal equals that of the interface whose valid field is high (and is zero if none is), or-ed signals are the bitwise or over all interfaces, and pass-back signals reach every interface unchanged.",
  ["inputs", "configurations"], "any number of interfaces, any one-hot (or empty) valid pattern and any field contents, names or accessor functions",
  "There is no test.", ["amlib/utils/bus.py"], [("encoder and switch", "OneHotMultiplexer.elaborate")])

P("T07", "synchronize() moves inputs through N stages of the target domain only",
  "Synchronizing a signal, record or self-synchronizing object delays every input leaf by exactly `stages` edges of the target domain - no other domain's edges matter - and wires output-direction leaves back unregistered; "
  "the given output object is used, or an equivalent one is created; nested records are treated alike.",
  ["schedules", "configurations"], "any record layout with mixed directions, stage count, target domain, and any interleaving of the edges of several clock domains",
  "Tests only elaborate two records and never look at a value.", ["amlib/utils/cdc.py"], [("recursive synchronizer construction", "synchronize")])

P("L03", "Number displays show exactly their input",
  "Each hexadecimal digit shows its nibble's (unambiguous) glyph and its dot in the same cycle (or, registered, both one cycle later). The bit bar is empty up to the minimum, full exactly from the maximum on, and in between grows linearly from one to all but one bits.",
  ["inputs", "configurations"], "every value, display width, register setting, bar range and bar width",
  "Only one bar range is tested; digits, dots and the register option are not.", ["amlib/io/led.py"],
  [("digit decoder", "NumberToSevenSegmentHex, NibbleToSevenSegmentHex"), ("range ladder", "NumberToBitBar.elaborate")])

P("I01", "I2C initiator: every command has exactly its wire behaviour",
  "Each start, write, read and stop command accepted while busy is low produces on SCL/SDA exactly its START/STOP condition or nine clock pulses (eight data bits MSB first plus acknowledge, the other side's bits released), lines being only pulled low, "
  "SDA changed only while SCL is low except for conditions, and SCL phases/setup/hold at least half/quarter a period; ack_o and data_o report what was on the bus. Devices may stretch SCL any time it is low. "
  "Strobes while busy are ignored, nothing happens on the bus without a command, and each command ends.",
  ["schedules", "histories", "inputs", "configurations"],
  "every legal command sequence, byte, acknowledge pattern, stretching pattern, bus period and strobe noise",
  "Tests run single commands on a bus with one period and no stretching, and read internal states.",
  ["amlib/io/i2c.py"], [("initiator FSM and quarter-period timer", "I2CInitiator"), ("line synchronizers", "I2CBus")],
  "periods 8..250; command-pair coverage by replaying a command-level model; device responds within the low phase.", True)

P("I02", "I2C target: address match, bytes, acknowledges and strobes",
  "For every master waveform the target pulls SDA only to acknowledge its own address, to acknowledge written bytes its user acknowledged, and to send the bytes its user supplied (MSB first); it strobes write with the received byte, read when it takes a byte, "
  "and brackets each transaction that addresses it with exactly one start and one stop-or-restart strobe, whatever earlier bytes, partial bytes, repeated STARTs or foreign transactions came before.",
  ["schedules", "histories", "inputs"],
  "every sequence of START/STOP/bit operations a master can perform (also in mid-byte), all addresses, data, acknowledges and phase lengths of 8 cycles or more",
  "Tests check single operations from a freshly reset target.",
  ["amlib/io/i2c.py"], [("target FSM", "I2CTarget"), ("bus condition detection", "I2CBus")],
  "The experimental busy (clock stretching request) input is held low.")

P("I03", "I2C stream transmitter sends each packet once between START and STOP",
  "Every packet written to the stream appears on the bus exactly once, in order, as START, its bytes MSB first with an acknowledge pulse each, STOP, and nothing else appears - whatever gaps the producer leaves, whatever the acknowledges, and with any amount of clock stretching; everything accepted is sent in bounded time.",
  ["schedules", "histories", "inputs", "configurations"], "all packets (first..last), gaps, backpressure, stretching, bus periods and FIFO depths",
  "The only test has no assertion.", ["amlib/stream/i2c.py", "amlib/io/i2c.py"], [("IDLE/STREAMING/STOP controller", "I2CStreamTransmitter.elaborate")])

P("I04", "I2C initiator and target exchange bytes end to end",
  "With initiator and target gateware on one bus, every byte the initiator writes after addressing the target arrives with exactly one write strobe and the target's acknowledge arrives back; every byte the target supplies is read back; "
  "other addresses see neither strobes nor acknowledges, and start/stop/restart strobes bracket each transaction.",
  ["schedules", "histories", "inputs"], "every legal command sequence, address, byte, acknowledge choice and bus period",
  "Initiator and target are only tested apart from each other.", ["amlib/io/i2c.py"], [("bus timing of both sides", "I2CInitiator, I2CTarget, I2CBus")],
  "The MC composes the wire-level specifications of both sides and checks the system view on them.")

P("P01", "SPI device exchanges words in every mode",
  "In every clock polarity, phase, bit order and chip select polarity the device samples one bit per sampling edge while selected and reports each complete word exactly once with exactly the bits sampled, sends the bits of the word supplied at selection "
  "(or, for following words, when the previous one completed) one per shifting edge, first bit in time for the first sampling edge, and forgets a partial word when deselected; edges while deselected have no effect.",
  ["histories", "schedules", "inputs", "configurations"], "any level sequence of chip select, clock and data; any word size, mode, order, synchronizer setting and words",
  "Tests exchange one word in one mode.", ["amlib/io/spi.py"], [("edge detectors and shift registers", "SPIDeviceInterface.elaborate")],
  "A bit counter restart for word sizes not a power of two was repaired.")

P("P02", "SPI command interface frames command and data words",
  "After selection exactly command_size bits form the command (one ready strobe), then the word supplied by the user is sent MSB first while exactly word_size bits are received (one complete strobe with those bits); "
  "aborting at any bit yields no strobe for the unfinished part, surplus bits and a selection left over from reset are ignored until deselection, and idle/stalled report just that.",
  ["histories", "inputs", "configurations"], "every sequence of selections, clock pulses and deselections (at any bit), all command/word sizes, clock phases of 4 cycles or more",
  "Tests cover one size and complete transactions (one abort).", ["amlib/io/spi.py"], [("command FSM", "SPICommandInterface.elaborate")],
  "Bits sent during the command phase are unspecified (documented as X).")

P("P03", "SPI register interface: reads, writes, strobes for any register map",
  "A register changes only by a complete write transaction to its address (then holds the word, cut to its size, and its write strobe fires once); a read transaction returns the register's value at the end of the command (zero-extended; the default value for unmapped or write-only addresses; "
  "all ones at address 0 with size autonegotiation) and fires its read strobe once; aborted or oversized transactions change nothing further.",
  ["histories", "inputs", "configurations"], "any register map (memory, sized, constant, input, special function registers, strobes), any address/register size and any transaction history including aborts",
  "Tests use one register and one map.", ["amlib/io/spi.py"], [("address decoding and strobes", "SPIRegisterInterface")])

P("P04", "SPI controller performs exactly one word transfer per start",
  "Each start strobe accepted while idle makes exactly one chip-select frame with exactly word_size clock pulses of the configured mode and frequency; an ideal device of that mode receives word_out and the controller reports (once) exactly the bits that device sent. "
  "The clock idles at its polarity outside of frames, strobes during a transfer are ignored, and every transfer ends in bounded time.",
  ["schedules", "inputs", "configurations"], "all modes, bit orders, word sizes, chip select polarities, divisors (12 and up; 6 and up without synchronizer), words and start schedules",
  "The only test loops one word back in one mode.", ["amlib/io/spi.py", "amlib/utils/clockdivider.py"], [("transfer FSM and clock gating", "SPIControllerInterface.elaborate")],
  "An ideal device samples at the sampling edge and changes its data right after the shifting edge.")

P("P05", "SPI lines are multiplexed and bound to pins in the right direction",
  "The SPI multiplexer broadcasts clock and data to every bus and returns the data of the selected bus (zero if none); connect_to_resource of controller, device, command, register interfaces and the LED array connects each pin to its bus line in the right direction, with chip select inverted exactly if the bus is active low.",
  ["inputs", "configurations"], "any number of buses, any levels with at most one bus selected; all interface kinds and chip select polarities",
  "There is no test.", ["amlib/io/spi.py", "amlib/io/max7219.py"], [("wiring", "SPIMultiplexer.elaborate, connect_to_resource")],
  "Combinational: every level combination of the pins is checked against the specification.")

P("L02", "Serial LED array: init commands, then all digits, in order, forever",
  "After the initial delay the chain receives each init command once, in order, addressed to all modules, then forever digit registers 1..8 in turn, each frame carrying for every module (last module first) its digit value as last taken by valid_in before the frame; every frame is one chip select of 16 bits per module.",
  ["histories", "schedules", "inputs", "configurations"], "any number of modules, init sequence, delay, divisor, digit contents and update schedule",
  "The test only runs the module without looking at the bus.", ["amlib/io/max7219.py", "amlib/io/spi.py"], [("init and refresh sequencer", "SerialLEDArray.elaborate")])

P("U01", "Serial transmitter sends every accepted word as one exact frame",
  "Each word accepted (ack while rdy) appears on the line exactly once and in order as start bit, data bits least significant first, parity bit of the configured kind and stop bit, each lasting exactly divisor cycles; the line is high otherwise, the frame starts in bounded time and rdy returns.",
  ["schedules", "histories", "inputs", "configurations"], "all data widths, parities, divisors (also reprogrammed between frames), words and handshake schedules; with or without pins",
  "There is no test.", ["amlib/io/serial.py"], [("transmit FSM", "AsyncSerialTX.elaborate"), ("wrapper", "AsyncSerial")])

P("U02", "Serial receiver reports exactly the frames on the line",
  "A frame begins with the first low level seen while idle and is sampled in the middle of each of its bits; after it data, frame and parity error flags describe exactly those samples with one rdy strobe (held while ack is low), "
  "or - when not acknowledged - it is dropped, data stays and overflow is set.",
  ["histories", "inputs", "configurations"], "every level sequence (frames, damaged frames, glitches, breaks, foreign bit times), all widths, parities, divisors from 5 and acknowledge schedules",
  "There is no test.", ["amlib/io/serial.py"], [("receive FSM", "AsyncSerialRX.elaborate"), ("input synchronizer", "AsyncSerialRX.elaborate pins")])

P("U03", "UART stream transmitters send every byte of every word once, in order",
  "UARTTransmitter, its Wishbone peripheral and the multibyte transmitter turn each accepted payload (each acknowledged bus write) into its bytes' 8N1 frames, least significant byte first, back to back, nothing lost, repeated or invented; driving is high exactly during frames, idle implies readiness, reads send nothing.",
  ["schedules", "histories", "inputs", "configurations"], "all divisors, byte widths, payloads and producer schedules",
  "Tests send one burst at one divisor.", ["amlib/stream/uart.py"], [("shift-out FSMs", "UARTTransmitter, UARTMultibyteTransmitter, UARTTransmitterPeripheral")],
  "amaranth_soc is replaced by a stub with the same bus record.")

P("U04", "I2S transmitter sends every sample bit-exactly in its own channel",
  "Samples accepted from the stream leave in order, each exactly once, MSB first, samples flagged first in the left and the others in the right channel: in the standard format from the second, in the left justified format from the first rising bit clock edge of the channel, starting with the first left channel after enabling. "
  "A channel without sample strobes underflow_out, one whose sample belongs to the other channel strobes mismatch_out (and keeps the sample), both send silence. ready and fifo_level_out tell the true fill level.",
  ["schedules", "histories", "inputs", "configurations"], "all sample widths 1..32, both formats, FIFO depths, bit clock jitter, channel lengths, producer schedules and enable/disable times",
  "One test only runs it; the loopback test uses one width, one format and transmitter and receiver with the same misalignment.", ["amlib/io/i2s.py"], [("transmit FSM", "I2STransmitter.elaborate")])

P("U05", "I2S receiver delivers exactly the samples on the line",
  "From the first left channel that begins after enabling, each completed channel gives exactly one sample on the stream - the first sample_width bits MSB first, from the second (standard) or first (left justified) rising edge - in order, left flagged first, right flagged last; further bits are ignored and samples are dropped only when the FIFO is full.",
  ["schedules", "histories", "inputs", "configurations"], "all sample widths 1..32, both formats, FIFO depths, bit clock jitter, channel lengths, reader schedules and enable/disable times",
  "Only one loopback at one width and format with a regular clock is tested.", ["amlib/io/i2s.py"], [("receive FSM", "I2SReceiver.elaborate")])

P("L01", "WS2812 driver sends exactly the stored colours with legal timing",
  "Each start gives: line low for at least 50 us, then for every LED in order its 24 bits green, red, blue MSB first - as stored when the LED's turn comes - each high for its 0 or 1 time (32/64 % of the bit time, rounded down) within one bit time, without gaps, then low for at least 50 us and one done strobe. Starts while sending are ignored; otherwise the line stays high.",
  ["schedules", "histories", "inputs", "configurations"], "all chain lengths, clock frequencies from 8 MHz, colours, write and start schedules",
  "The test only runs it once without looking at the line.", ["amlib/io/ws2812.py"], [("reset/transmit FSM", "WS2812.elaborate"), ("timing", "WS2812.__init__")])

P("B01", "bits behaves as an immutable sequence, least significant bit first",
  "Every operation of bits (construction from int, str, iterable, bytes and bits, indexing and slicing with negative positions, iteration, concatenation, repetition, bitwise operators with either operand converted, reversal, comparison, conversion to int, str and bytes of both orders) gives what the same operation on the sequence of bits gives, and never changes its operands.",
  ["inputs", "histories"], "all operation sequences on objects of any length", "Unit tests try one or two values per operation.",
  ["amlib/utils/bits.py"], [("bit sequence class", "bits")])

P("D01", "FIR filter: designed response, exact fixed point sums",
  "After each enabled cycle the output is the sum over the taps of tap times sample (each product scaled by 2^-fraction_width and rounded down, sum modulo 2^bitwidth) of the newest samples, the newest one included; without enable_in nothing changes. "
  "With mac_loop the same values appear within taps+4 cycles of the strobe (strobes at least that far apart) and stay. The taps meet the requested filter: gain 1 in the pass band, 1/2 at an integer cutoff frequency (in Hz), attenuation in the stop band, ripples in the ratio of the weights.",
  ["inputs", "histories", "configurations"], "all sample sequences over the full range, enable patterns, widths up to 26 bits, orders up to 99, cutoffs, low and high pass, both structures",
  "The test drives some steps and asserts nothing.", ["amlib/dsp/fixedpointfirfilter.py"],
  [("parallel sum", "FixedPointFIRFilter.elaborate"), ("MAC loop FSM", "FixedPointFIRFilter.elaborate"), ("design", "FixedPointFIRFilter.__init__")],
  "The design is judged at sampled frequencies with tolerances.")

P("D02", "IIR filter: Chebyshev response, exact recursion",
  "After each enabled cycle the output is sum(b*x) - sum(a*y) over the newest inputs and the previous outputs, products scaled by 2^-fraction_width and rounded down, modulo 2^bitwidth; without enable_in nothing changes. The coefficients (b, a) have the power response of a Chebyshev filter of the order with 1 dB ripple and the given cutoff, low or high pass.",
  ["inputs", "histories", "configurations"], "all sample sequences over the full range, enable patterns, widths up to 18 bits, orders 1 to 4, cutoffs",
  "The test drives some steps and asserts nothing.", ["amlib/dsp/fixedpointiirfilter.py"],
  [("difference equation", "FixedPointIIRFilter.elaborate"), ("design", "FixedPointIIRFilter.__init__")],
  "The design is judged at sampled frequencies with tolerances.")

P("D03", "Half band decimator: exact sums, strobe for every second sample",
  "After each input strobe the output is the half band sum of the newest samples (tap pairs share a product, centre tap exactly 1/2, rounded down per product, modulo 2^bitwidth) - at once, or with mac_loop within its loop time and then stable - and strobe_out follows exactly every second strobe. The taps pass up to 0.22 and stop from 0.28 of the sample rate.",
  ["inputs", "histories", "configurations"], "all sample sequences over the full range, strobe patterns, orders 4m+3, widths, both structures",
  "The test drives a square wave and asserts nothing.", ["amlib/dsp/fixedpointhbfilter.py"],
  [("paired sum", "FixedPointHBFilter.elaborate"), ("MAC loop FSM", "FixedPointHBFilter.elaborate"), ("decimation counter", "FixedPointHBFilter.elaborate")])

P("D04", "CIC decimator delivers the exact N-fold moving sum",
  "For +-1 inputs there is exactly one output strobe, soon after every decimation-th input strobe; the output then is the filter_stage-fold moving sum over decimation samples (with the structure's constant delay), scaled by the smallest power of two by which the whole range -R^N..R^N fits into bitwidth: no overflow for any input.",
  ["inputs", "histories", "configurations"], "all bit streams, strobe spacings (also back to back), stages, decimation factors from 2, widths",
  "The test drives a square wave and asserts nothing; full scale needs a long run of ones.", ["amlib/dsp/fixedpointcicfilter.py"],
  [("integrators and combs", "FixedPointCICFilter.elaborate"), ("register width", "FixedPointCICFilter.__init__")],
  "The register level structure is proved equal to the moving sum for all bit streams at small R, N.")

P("D05", "Filter bank is the chain of its filters",
  "The filter bank behaves as num_instances equal filters of the given kind in series: all take a sample in each enabled cycle, each from the output its predecessor had, and the last one's output is the result, bit exact.",
  ["inputs", "histories", "configurations"], "all sample sequences, enable patterns, instance counts, FIR and IIR, widths and designs",
  "There is no test of its own.", ["amlib/dsp/filterbank.py"], [("chain", "Filterbank.elaborate")])

P("D06", "Fractional resampler is exact for every schedule",
  "The output words are exactly every downsample_factor-th value of the filtered sequence of prescaled input samples, each followed by upsample_factor-1 zeros, in order, none lost, repeated or invented - whatever the timing of offers and takes. A word once valid stays until taken, and the resampler makes progress as long as its output is taken.",
  ["schedules", "inputs", "histories", "configurations"], "all offer/ready schedules, sample sequences, factors (also 1), FIR and IIR, widths up to 16",
  "The tests drive a square wave with ready high and assert nothing.", ["amlib/dsp/resampler.py", "amlib/dsp/filterbank.py"],
  [("zero stuffing and gating", "FractionalResampler.elaborate"), ("decimation FIFO", "FractionalResampler.elaborate")])

P("D07", "Stereo convolution delivers the exact convolution, in order",
  "For every left/right pair of words accepted (left marked first, right marked last) exactly one left and one right word come out, in this order and so marked: the sums of the products of the newest samples with the impulse responses as the mode says (crossfeed, stereo, mono), divided by 2^bitwidth rounded down, modulo 2^bitwidth. Words stay valid until taken, and each pair takes bounded time.",
  ["schedules", "inputs", "histories", "configurations"], "all taps (also negative), tap counts, slice counts, widths to 24 bits, modes, samples and handshake schedules",
  "Tests use one tap set, 4 slices and a consumer that is always ready, with a tolerance of 1.", ["amlib/dsp/convolution/mac.py"],
  [("slice packing", "StereoConvolutionMAC.__init__"), ("shift and MAC loop", "StereoConvolutionMAC.elaborate"), ("output handshake", "StereoConvolutionMAC.elaborate")])

P("D08", "FFT delivers each bin of the windowed transform once, in order",
  "After start and pts sample strobes, exactly pts output strobes give the bins 0..pts-1 of the discrete Fourier transform of the windowed samples divided by pts, within a few units of rounding, then done; done is low from the start on, and until then start and strobes out of place change nothing. Loading a window replaces the weight of each sample by the one given with its strobe; initially it is the 4-term Blackman-Harris window.",
  ["inputs", "histories", "configurations"], "all complex inputs and windows, sizes from 4, widths, sequences of loads and transforms, strobe spacings from 5 cycles",
  "The test runs one tone and asserts nothing.", ["amlib/dsp/fixedpointfft.py"],
  [("butterfly FSM", "FixedPointFFT.elaborate"), ("window load", "FixedPointFFT.elaborate"), ("bit reversal", "FixedPointFFT.elaborate")],
  "The radix 2 constant geometry algorithm is checked against the transform for all inputs over small alphabets at 4 and 8 points.")

P("A01", "Logic analyzer captures the samples around the trigger",
  "After a trigger accepted while no capture runs, the analyzer stores exactly depth samples: the last samples_pretrigger samples before the trigger, then the one of the trigger cycle and those that follow, with enable only enabled ones; it then sets complete, which stays until the next trigger. "
  "Every sample reads back at its address, capturing is active from the trigger to completion, and triggers during a capture change nothing.",
  ["histories", "schedules", "inputs", "configurations"], "all input, enable, trigger and read histories, pretrigger counts from 0, depths, widths (signed too)",
  "The tests run one capture each with 0 and 8 pretrigger samples.", ["amlib/debug/ila.py"],
  [("pretrigger delay/FIFO", "IntegratedLogicAnalyzer.elaborate"), ("capture FSM", "IntegratedLogicAnalyzer.elaborate")],
  "When some of the last samples_pretrigger cycles were not enabled, older enabled samples may or may not be kept in their place (either is accepted).")

P("A02", "SPI readout of the analyzer sends every sample in order",
  "In every selection the SPI master reads the captured samples from the first on, one per word of a power of two of at least 32 bits, MSB first and zero-extended, in all four SPI modes and with either chip select polarity, whatever was read before and wherever the master stopped.",
  ["schedules", "histories", "inputs", "configurations"], "all captures, read lengths, aborted reads, clock timing from 5 cycles per half period, modes, widths up to several words",
  "The test reads one capture once in one mode.", ["amlib/debug/ila.py", "amlib/io/spi.py"],
  [("sample counter", "SyncSerialILA.elaborate")])

P("A03", "Stream readout sends each captured sample exactly once, marked",
  "After each accepted trigger the stream delivers the depth captured samples exactly once each, in order, the first and only it marked first, the last and only it marked last; words stay valid until taken, are offered without waiting for ready, and triggers before the readout has ended are ignored. The same holds when the stream leaves in another clock domain.",
  ["schedules", "histories", "inputs", "configurations"], "all inputs, trigger and ready schedules (also consumers that wait for valid), clock ratios, depths, widths, domains",
  "The test reads one capture with ready high in one domain.", ["amlib/debug/ila.py"],
  [("readout FSM", "StreamILA.elaborate"), ("domain crossing", "StreamILA.elaborate")])

P("A04", "UART readout, frontend and VCD dump reproduce the samples",
  "The bytes sent over the UART for a capture, read by the frontend, give for every sample the values the analyzer's signals had; the parameters survive pickling; the VCD dump has each signal's value of sample k from the nearest nanosecond to k sample periods on until the next sample, and a clock, unless not wanted, rising with each sample; the GTKWave view shows exactly the signals of the dump.",
  ["inputs", "histories", "configurations"], "all captures, signal widths (signed too), depths, UART divisors, sample rates, with and without pickled parameters",
  "There is no test of the frontend or the UART readout.", ["amlib/debug/ila.py", "amlib/stream/uart.py", "amlib/utils/bits.py"],
  [("UART transport", "AsyncSerialILA.elaborate"), ("byte order", "AsyncSerialILAFrontend._split_samples"), ("dump", "ILAFrontend.emit_vcd"), ("pickling", "ILACoreParameters")],
  "The serial port and the gtkwave program are stand-ins.")

P("W01", "Wishbone RAM and ROM answer every transfer with what was stored",
  "WishboneRAM and WishboneROM acknowledge every request for one cycle, in the cycle after it. A read returns the addressed word: the initial contents (words, bytes or a file, in the given byte order, zero beyond them) as changed by all earlier writes. A write changes exactly the selected lanes of the addressed word; a ROM and a read only RAM never change.",
  ["histories", "schedules", "inputs", "configurations"], "all transfer sequences with any lanes, back to back, idle, given up; address/data widths, granularities, byte orders, initial contents",
  "There are no tests of the SoC package.", ["amlib/soc/memory.py"],
  [("initial contents", "WishboneRAM._initialization_value"), ("write lanes", "WishboneRAM.elaborate"), ("acknowledge", "WishboneRAM.elaborate")],
  "amaranth_soc is not installed here: the bus and memory map types are stand-ins in /verif/stubs.")

P("W02", "No interrupt event is lost, and the line follows enabled events",
  "InterruptSource sets an event's pending bit in every cycle with its trigger (level, rising or falling edge) and clears it only when 1 is written to the bit without a trigger in that cycle; status shows the strobes, enable what was last written to it, and the interrupt line is high exactly while an enabled event is pending.",
  ["histories", "schedules", "inputs", "configurations"], "all strobe and register write histories, any number of events and modes",
  "There are no tests of the SoC package.", ["amlib/soc/event.py"],
  [("trigger modes", "InterruptSource.elaborate"), ("pending", "InterruptSource.elaborate"), ("interrupt line", "InterruptSource.elaborate")],
  "The register bus is a stand-in for amaranth_soc.")

P("W03", "Every register of a peripheral is mapped and accessed on its own",
  "A Peripheral's registers, interrupt registers and windows lie at distinct addresses, aligned and placed as requested, registers of a bank in order. A bus transfer to a register reads or writes exactly that register with the transferred value; a transfer to a window reaches that window unchanged; the interrupt registers work as W02 says.",
  ["inputs", "histories", "configurations"], "all sets of banks, registers (width, access, address, alignment), windows and events, all access sequences",
  "There are no tests of the SoC package.", ["amlib/soc/peripheral.py", "amlib/soc/event.py"],
  [("address assignment", "PeripheralBridge.__init__"), ("register naming and placing", "CSRBank.csr"), ("interrupt registers", "PeripheralBridge.elaborate")],
  "Address allocation, multiplexer and bridge come from stand-ins for amaranth_soc.")

P("W04", "The serial port peripheral carries bytes both ways and reports faithfully",
  "Words written to UARTPeripheral while it is enabled leave on tx as well formed frames at the programmed divisor, once each and in order; words arriving on rx are read once each, in order; the error register tells overflow, framing and parity of the last word; ready registers, the three events and the interrupt line follow the FIFO and error states.",
  ["histories", "schedules", "inputs", "configurations"], "all driver access sequences, divisors, FIFO depths, arrival times, line errors",
  "There are no tests of the SoC package.", ["amlib/soc/uart.py", "amlib/io/serial.py"],
  [("transmit FIFO", "UARTPeripheral.elaborate"), ("receive FIFO and errors", "UARTPeripheral.elaborate"), ("events", "UARTPeripheral.elaborate")],
  "Frames with a low stop bit are not sent (the receiver starts over on the low line); framing errors are provoked by vanishing start bits.")

P("W05", "A system's memories and registers are where it says they are",
  "In a SimpleSoC every memory and register answers at exactly one address range, the requested one if any, through both processor buses as one memory; each interrupting peripheral has its own number, under which the processor sees it. resources(), main_ram_address(), the linker script and the C header (compiled: register access and interrupt functions) agree with that map.",
  ["inputs", "histories", "configurations"], "all sets of memories and peripherals, requested addresses, sizes, BIOS on or off, concurrent access sequences of both buses",
  "There are no tests of the SoC package.", ["amlib/soc/simplesoc.py", "amlib/soc/memory.py", "amlib/soc/peripheral.py"],
  [("bus and interrupts", "SimpleSoC.elaborate"), ("interrupt numbers", "SimpleSoC.add_peripheral"), ("C header", "SimpleSoC.generate_c_header"), ("linker script", "SimpleSoC.generate_ld_script"), ("listing", "SimpleSoC.resources")],
  "Processor, arbiter, decoder and BIOS peripherals are stand-ins for lambdasoc, minerva and amaranth_soc. Memories that share a name, and registers wider than 32 bits, are not put into the header.")
