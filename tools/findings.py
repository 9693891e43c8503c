#!/usr/bin/env python3
"""Writes known_findings.json: what was found in amlib and repaired (a fixed entry suppresses nothing)."""
import json, os
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FIXED = [
 ("F01", "348f36d", "in the cycle after a read_discard the FIFO presented the entry of the old read pointer while empty was low"),
 ("S01", "1f36f4e", "StreamArbiter switched producers in mid-burst when a multi-bit valid was only partly set"),
 ("S03", "5e72eb6", "StreamInterface.attach/stream_eq(omit=...) connected extra fields that were to be left out"),
 ("S04", "64421e9", "ConstantStreamGenerator never asserted first when start_position was not 0"),
 ("S05", "1eeebfc", "PacketListStreamer never terminated for total lengths of 2**n, ignored data_width, needed a cycle after reset"),
 ("T01", "34856ff", "Timer with a load or reload value of 1 gave no or late ticks"),
 ("T03", "98fc060", "past_value_of and any_edge_detected truncated multi-bit signals to one bit"),
 ("L03", "eb0dc37", "NumberToBitBar could not represent maxvalue of 2**n, the full bar was unreachable"),
 ("L03", "ff71752", "NumberToSevenSegmentHex shifted the digits when registered and had dots at the wrong digit"),
 ("T06", "3e0263e", "OneHotMultiplexer passed muxed signals of an interface without valid"),
 ("L03", "b364d5c", "the seven segment digit D was drawn like 0"),
 ("I01", "812a04d", "I2CInitiator executed strobes given while busy was high"),
 ("I03", "9b58a23", "I2CStreamTransmitter sent garbage bytes when its FIFO ran empty in mid-packet"),
 ("P01", "1a2ea7c", "SPIDeviceInterface misaligned words after the first for word sizes that are not powers of two"),
 ("P04", "96db118", "SPIControllerInterface with clock phase 0 lost the first bit: no data before the first leading edge"),
 ("P05", "1bb22a5", "connect_to_resource of the SPI interfaces raised AttributeError / drove inputs"),
 ("L02", "fc25148", "SerialLEDArray with a long init sequence never finished it: step counter too narrow"),
 ("U04", "942db7e", "I2S with 32 bit samples: counters too narrow; left-justified format crashed"),
 ("U05", "942db7e", "I2S with 32 bit samples: counters too narrow"),
 ("U04", "f5b05db", "I2S transmitter: first sample after enabling one bit late and taken unconditionally"),
 ("U05", "f5b05db", "I2S receiver enabled in mid-channel delivered shifted samples"),
 ("U04", "9b564dc", "I2S with samples of 16 bits or less: silent left channel"),
 ("U05", "9b564dc", "I2S with samples of 16 bits or less: left samples lost"),
 ("U04", "4bfd026", "left justified I2S transmitter: every sample one bit late"),
 ("L01", "9d1e917", "WS2812 reset lasted one bit time instead of 50us"),
 ("B01", "ee9410f", "bits: negative indices raised or gave wrong bits"),
 ("D01", "44a1196", "FIR: cutoff interpreted in the wrong unit; MAC loop used stale samples and truncated taps"),
 ("D03", "10ac046", "half band filter MAC loop used stale samples and truncated taps"),
 ("D04", "fb90f72", "CIC overflowed at the full scale positive sum"),
 ("D06", "270aca7", "FractionalResampler lost samples under backpressure and withdrew valid"),
 ("D07", "1c9a993", "StereoConvolutionMAC: negative taps corrupted their neighbour; output withdrawn before it was taken"),
 ("D07", "c8241cf", "StereoConvolutionMAC hung for 2**n - 1 samples per slice"),
 ("D08", "1d19329", "FFT output the first bin twice and dropped the last; window loaded at the wrong place"),
 ("A01", "ea40a15", "ILA captured one pretrigger sample when asked for two, and stale samples while its FIFO filled"),
 ("A02", "4d7e538", "SyncSerialILA ignored cs_idles_high"),
 ("A03", "af12591", "StreamILA streamed one sample too many, lost its clock domains when crossing, made valid wait for ready"),
 ("A04", "83bbc98", "ILA frontend swapped bytes of wide samples; VCD timestamps accumulated rounding errors"),
 ("W01", "443fba2", "WishboneRAM with init bytes and WishboneROM ignored granularities other than 8"),
 ("W05", "546f54a", "SimpleSoC.resources() raised for the BIOS memories"),
 ("P01", "28ec614", "the SPI device detected the edges of SCK and CS in the literal domain sync, also when it was placed in another clock domain"),
 ("P02", "28ec614", "the SPI command interface detected clock edges in the literal domain sync, also when it was placed in another clock domain"),
 ("P04", "28ec614", "the SPI controller detected clock edges in the literal domain sync, also when it was placed in another clock domain"),
 ("A02", "28ec614", "SyncSerialILA(domain=...) detected the start of a transaction and the edges of SCK in the literal domain sync"),
 ("A04", "ccde5d6", "the GTKWave view listed a clock that a dump without add_clock does not have; interactive_display ignored add_clock"),
]
json.dump([dict(status="fixed", property=p, commit=c, what=w, entry=f"fixed: property={p} {c} {w}") for p, c, w in FIXED],
          open(os.path.join(H, "known_findings.json"), "w"), indent=1)
