"""Registry: which harness entries decide which property, over which modules, within which bounds."""
COMMON_ASSUMPTIONS = [
    "the code is compiled by clang 18 -O1 -DNDEBUG (no assert(3)); semantics of LLVM IR as implemented by engine/symx",
    "wblib, jsoncpp and iostreams/regex/filesystem/clock/threads are modelled (stubs/, sym/); models are compared with the real "
    "libstdc++ by replaying sampled paths natively",
    "Z3 is trusted for unsat answers; sat answers are re-evaluated and replayed natively",
]
BASE = ["bcd_utils.cpp", "bin_utils.cpp", "common_utils.cpp", "crc16.cpp"]
MODULES = {
    "base": dict(harness=["base.cpp"], src=BASE),
    "modbus_base": dict(harness=["modbus_base.cpp"], src=BASE + ["modbus_base.cpp", "serial_exc.cpp", "port/port.cpp", "log.cpp"]),
    "plan": dict(harness=["plan.cpp"], src=[]),
    "files": dict(harness=["files.cpp"], src=["file_utils.cpp"]),
    "reg": dict(harness=["reg.cpp"], src=["register.cpp", "register_value.cpp", "bcd_utils.cpp", "serial_exc.cpp", "log.cpp"]),
    "serial": dict(harness=["serial.cpp"], src=["port/port.cpp", "serial_device.cpp", "register_handler.cpp", "register.cpp", "register_value.cpp", "bcd_utils.cpp",
                                               "serial_exc.cpp", "log.cpp", "common_utils.cpp", "serial_config.cpp"], stubs=["json.cpp"]),
    "modbus": dict(harness=["modbus.cpp"], stubs=["json.cpp"], src=BASE + ["modbus_common.cpp", "modbus_base.cpp", "devices/modbus_device.cpp", "devices/modbus_io_device.cpp",
                                                        "wb_registers.cpp", "port/port.cpp", "serial_device.cpp", "register.cpp", "register_value.cpp", "serial_exc.cpp", "log.cpp",
                                                        "serial_config.cpp"]),
    "ext": dict(harness=["ext.cpp"], src=BASE + ["modbus_ext_common.cpp", "modbus_base.cpp", "serial_exc.cpp", "port/port.cpp", "log.cpp"]),
    "dev": dict(harness=["dev.cpp"], stubs=["json.cpp"], src=BASE + ["devices/em_device.cpp", "devices/mercury230_device.cpp", "devices/milur_device.cpp", "devices/mercury200_device.cpp",
                                                        "devices/uniel_device.cpp", "devices/pulsar_device.cpp", "devices/lls_device.cpp", "devices/ivtm_device.cpp", "devices/s2k_device.cpp",
                                                        "devices/energomera_ce_device.cpp", "port/port.cpp", "serial_device.cpp", "register.cpp", "register_value.cpp", "serial_exc.cpp", "log.cpp",
                                                        "serial_config.cpp"]),
    "dev2": dict(harness=["dev2.cpp"], stubs=["json.cpp"], src=BASE + ["devices/curtains/a_ok_device.cpp", "devices/curtains/dooya_device.cpp", "devices/curtains/somfy_sdn_device.cpp",
                                                        "devices/curtains/windeco_device.cpp", "port/port.cpp", "serial_device.cpp", "register.cpp", "register_value.cpp", "serial_exc.cpp", "log.cpp",
                                                        "serial_config.cpp"]),
    "dev3": dict(harness=["dev3.cpp"], stubs=["json.cpp"], src=BASE + ["iec_common.cpp", "devices/energomera_iec_device.cpp", "devices/energomera_iec_mode_c_device.cpp", "devices/iec_mode_c_device.cpp",
                                                        "devices/neva_device.cpp", "port/port.cpp", "serial_device.cpp", "register.cpp", "register_value.cpp", "serial_exc.cpp", "log.cpp",
                                                        "serial_config.cpp"]),
    "client": dict(harness=["client.cpp"], stubs=["json.cpp"], src=BASE + ["serial_client_register_poller.cpp", "pollable_device.cpp", "serial_client_device_access_handler.cpp", "serial_client_events_reader.cpp",
                                                        "serial_client.cpp", "write_channel_serial_client_task.cpp", "register_handler.cpp", "modbus_ext_common.cpp", "modbus_common.cpp", "modbus_base.cpp",
                                                        "devices/modbus_device.cpp", "wb_registers.cpp", "port/feature_port.cpp", "port/port.cpp", "serial_device.cpp", "register.cpp", "register_value.cpp",
                                                        "serial_exc.cpp", "log.cpp", "serial_config.cpp"]),
    "driver": dict(harness=["driver.cpp", "events.cpp"], stubs=["json.cpp"], src=BASE + ["serial_port_driver.cpp", "serial_client_register_poller.cpp", "pollable_device.cpp", "serial_client_device_access_handler.cpp",
                                                        "serial_client_events_reader.cpp", "serial_client.cpp", "write_channel_serial_client_task.cpp", "register_handler.cpp", "modbus_ext_common.cpp",
                                                        "modbus_common.cpp", "modbus_base.cpp", "devices/modbus_device.cpp", "wb_registers.cpp", "port/feature_port.cpp", "port/port.cpp", "serial_device.cpp",
                                                        "register.cpp", "register_value.cpp", "serial_exc.cpp", "log.cpp", "serial_config.cpp"]),
    "port": dict(harness=["port.cpp"], stubs=["json.cpp"], src=BASE + ["port/file_descriptor_port.cpp", "port/serial_port.cpp", "port/tcp_port.cpp", "port/feature_port.cpp", "port/port.cpp", "modbus_base.cpp",
                                                        "modbus_common.cpp", "devices/modbus_device.cpp", "wb_registers.cpp", "devices/lls_device.cpp", "devices/curtains/dooya_device.cpp", "serial_device.cpp",
                                                        "register.cpp", "register_value.cpp", "serial_exc.cpp", "log.cpp", "serial_config.cpp"],
                 wrap=["select", "ioctl", "read", "write", "open", "close", "tcgetattr", "tcsetattr", "tcflush", "cfsetospeed", "cfsetispeed", "socket", "fcntl", "setsockopt", "getsockopt", "connect",
                       "getaddrinfo", "freeaddrinfo", "gai_strerror"]),
    "conf": dict(harness=["conf.cpp"], stubs=["json.cpp"], src=BASE + ["serial_config.cpp", "config_merge_template.cpp", "templates_map.cpp", "expression_evaluator.cpp", "json_common.cpp", "file_utils.cpp",
                                                        "port/port.cpp", "port/feature_port.cpp", "serial_device.cpp", "register_handler.cpp", "register.cpp", "register_value.cpp", "serial_exc.cpp", "log.cpp"]),
    "fw": dict(harness=["fw.cpp"], stubs=["json.cpp"], src=BASE + ["rpc/rpc_fw_update_task.cpp", "rpc/rpc_fw_update_state.cpp", "rpc/rpc_fw_update_serial_client_task.cpp", "rpc/rpc_fw_restore_task.cpp",
                                                        "rpc/rpc_fw_update_handler.cpp", "rpc/rpc_fw_get_firmware_info_task.cpp", "rpc/rpc_fw_downloader.cpp", "serial_client_device_access_handler.cpp",
                                                        "modbus_common.cpp", "modbus_base.cpp", "port/feature_port.cpp", "port/port.cpp", "serial_device.cpp", "register.cpp", "register_value.cpp",
                                                        "wb_registers.cpp", "devices/modbus_device.cpp", "serial_exc.cpp", "log.cpp", "serial_config.cpp"]),
    "rpc": dict(harness=["rpc.cpp"], stubs=["json.cpp"], src=BASE + ["rpc/rpc_port_handler.cpp", "rpc/rpc_port_load_request.cpp", "rpc/rpc_port_load_raw_serial_client_task.cpp",
                                                        "rpc/rpc_port_load_modbus_serial_client_task.cpp", "rpc/rpc_port_setup_serial_client_task.cpp", "rpc/rpc_port_scan_serial_client_task.cpp", "rpc/rpc_helpers.cpp",
                                                        "rpc/rpc_exception.cpp", "rpc/rpc_device_handler.cpp", "rpc/rpc_device_load_task.cpp", "rpc/rpc_device_set_task.cpp", "rpc/rpc_device_load_config_task.cpp",
                                                        "rpc/rpc_device_probe_task.cpp", "modbus_ext_common.cpp", "templates_map.cpp", "config_merge_template.cpp", "expression_evaluator.cpp", "json_common.cpp",
                                                        "file_utils.cpp", "serial_config.cpp", "modbus_common.cpp", "modbus_base.cpp", "wb_registers.cpp", "devices/modbus_device.cpp", "port/feature_port.cpp",
                                                        "port/port.cpp", "serial_device.cpp", "register_handler.cpp", "register.cpp", "register_value.cpp", "serial_client_device_access_handler.cpp",
                                                        "serial_exc.cpp", "log.cpp"]),
    "devrpc": dict(harness=["devrpc.cpp"], stubs=["json.cpp"], src=BASE + ["rpc/rpc_port_handler.cpp", "rpc/rpc_port_load_request.cpp", "rpc/rpc_port_load_raw_serial_client_task.cpp",
                                                        "rpc/rpc_port_load_modbus_serial_client_task.cpp", "rpc/rpc_port_setup_serial_client_task.cpp", "rpc/rpc_port_scan_serial_client_task.cpp", "rpc/rpc_helpers.cpp",
                                                        "rpc/rpc_exception.cpp", "rpc/rpc_device_handler.cpp", "rpc/rpc_device_load_task.cpp", "rpc/rpc_device_set_task.cpp", "rpc/rpc_device_load_config_task.cpp",
                                                        "rpc/rpc_device_probe_task.cpp", "modbus_ext_common.cpp", "templates_map.cpp", "config_merge_template.cpp", "expression_evaluator.cpp", "json_common.cpp",
                                                        "file_utils.cpp", "serial_config.cpp", "modbus_common.cpp", "modbus_base.cpp", "wb_registers.cpp", "devices/modbus_device.cpp", "port/feature_port.cpp",
                                                        "port/port.cpp", "serial_device.cpp", "register_handler.cpp", "register.cpp", "register_value.cpp", "serial_client_device_access_handler.cpp",
                                                        "pollable_device.cpp", "serial_exc.cpp", "log.cpp"]),
    "tmpl": dict(harness=["tmpl.cpp"], stubs=["json.cpp"], src=BASE + ["rpc/rpc_templates_handler.cpp", "rpc/rpc_device_type_json.cpp", "rpc/rpc_exception.cpp", "templates_map.cpp", "json_common.cpp", "file_utils.cpp",
                                                        "expression_evaluator.cpp", "serial_config.cpp", "config_merge_template.cpp", "port/port.cpp", "port/feature_port.cpp", "serial_device.cpp", "register_handler.cpp", "register.cpp",
                                                        "register_value.cpp", "serial_exc.cpp", "log.cpp"]),
    "confload": dict(harness=["confload.cpp"], stubs=["json.cpp"], src=BASE + ["serial_config.cpp", "old_serial_config.cpp", "confed_json_generator.cpp", "rpc/rpc_config.cpp", "config_merge_template.cpp", "templates_map.cpp",
                                                        "expression_evaluator.cpp", "json_common.cpp", "file_utils.cpp", "port/port.cpp", "port/feature_port.cpp", "port/file_descriptor_port.cpp", "port/serial_port.cpp", "port/tcp_port.cpp",
                                                        "modbus_base.cpp", "modbus_ext_common.cpp", "serial_device.cpp", "register_handler.cpp", "register.cpp", "register_value.cpp", "serial_exc.cpp", "log.cpp"]),
    "expr": dict(harness=["expr.cpp"], src=["expression_evaluator.cpp"]),
}


def E(mod, fn, bounds, reach=(), quick=None, thorough=None, **kw):
    d = dict(mod=mod, fn=fn, bounds=bounds, reach=list(reach))
    d.update(kw)
    if quick is not None:
        d["quick"] = quick
    if thorough is not None:
        d["thorough"] = thorough
    return d


def par(time=40, jobs=1, **params):
    return dict(params=params, time=time, jobs=jobs)


PROPS = {
    "C01": dict(entries=[
        E("base", "h_crc_ref", "every byte sequence of length 0..32 (thorough 0..256)", ["checked"], [par(hi=32, jobs=4)], [par(hi=256, jobs=8, time=400)]),
        E("base", "h_crc_residue", "every byte sequence of length 0..24 (thorough 0..254)", ["checked"], [par(hi=24, jobs=4)], [par(hi=254, jobs=8, time=400)]),
        E("base", "h_crc_burst", "every frame of 3..6 bytes (thorough 3..16), every burst pattern and position", ["checked"], [par(hi=6, jobs=4)], [par(hi=16, jobs=8, time=300)]),
    ]),
    "C02": dict(entries=[
        E("base", "h_bin_get", "8 result types, 0..8 bytes, offset 0..2, all byte values", ["full"], [par(jobs=2)]),
        E("base", "h_bin_append", "7 value types, 1..8 bytes, 0..2 preceding bytes, all values", ["append"], [par(jobs=2)]),
        E("base", "h_bin_misc", "all bit counts 0..255, all values", ["done"], [par()]),
    ]),
    "C03": dict(entries=[
        E("base", "h_stuffing", "3 rule sets, payloads of 0..4 bytes (thorough 0..6), all byte values, with and without end marker", ["tail", "escaped"],
          [par(hi=4, jobs=6)], [par(hi=6, jobs=8, time=600)]),
        E("base", "h_unstuff_any", "3 rule sets, arbitrary byte strings of 0..4 (thorough 0..6) bytes", ["done"], [par(hi=4, jobs=2)], [par(hi=6, jobs=8, time=300)]),
    ]),
    "C04": dict(entries=[
        E("base", "h_bcd", "all byte values for 1..4 bytes", ["valid"], [par(jobs=4)], [par(jobs=4, time=300)]),
        E("base", "h_bcd_any_upper", "all 64-bit values", ["done"], [par()]),
        E("base", "h_int2bcd", "all integers that fit 1..2 bytes (thorough 1..4)", ["done"], [par(w=2)], [par(w=4, time=600)]),
    ]),
    "C05": dict(entries=[
        E("base", "h_mqtt_name", "every byte string of length 0..3 (thorough 0..4)", ["valid", "invalid"], [par(hi=3, jobs=8)], [par(hi=4, jobs=8, time=600)]),
    ]),
    "C06": dict(entries=[
        E("base", "h_version_order", "pairs of versions with 1..2 one-digit components and optional -rcN/+wbN (thorough: two digits, 3 components)", ["less", "equal", "greater"],
          [par(comps=2, digits=1, jobs=2), par(comps=1, digits=2, jobs=2)], [par(comps=3, digits=1, jobs=4, time=300), par(comps=1, digits=3, jobs=4, time=300)]),
        E("base", "h_version_missing", "1..3 one-digit components each", ["done"], [par()]),
        E("base", "h_version_any", "arbitrary bytes, lengths 0..2 each (thorough 0..3)", ["done"], [par(jobs=4)], [par(na=3, nb=3, jobs=8, time=400)]),
        E("base", "h_version_trans", "triples over the alphabet 0 1 9 . with suffixes, one character (thorough two)", ["chain"], [par(n=1, jobs=4)], [par(n=2, jobs=8, time=600)]),
        E("base", "h_version_long", "numbers of 9..12 digits in every position (thorough ..22)", ["done"], [par(hi=11, jobs=2)], [par(hi=22, jobs=8, time=300)]),
    ]),
    "C07": dict(entries=[
        E("expr", "h_cond_eval", "1..2 operands of every kind with up to two bracket pairs (thorough: 3 operands), every operator, every value and definedness",
          ["single", "operators"], [par(hi=2, kinds=3, brackets=2, jobs=4)], [par(hi=3, kinds=3, brackets=1, digits=1, jobs=8, time=600)]),
        E("expr", "h_cond_eval", "3 (thorough 4) parameters, every combination of operators, bracket pairs, values and definedness", ["operators"],
          [par(lo=3, hi=3, brackets=2, jobs=4)], [par(lo=4, hi=4, brackets=2, jobs=8, time=600)]),
        E("expr", "h_cond_eval", "4 parameters without brackets, every combination of operators", ["operators"],
          [par(lo=4, hi=4, brackets=0, jobs=4)], [par(lo=4, hi=4, brackets=0, jobs=4)]),
        E("expr", "h_cond_number", "literals of 1..5 (thorough 1..9) digits, and of 10 digits next to the limits of the 32-bit range", ["done"],
          [par(hi=5), par(hi=1, edge=1)], [par(hi=9, jobs=4, time=300), par(hi=1, edge=1)]),
    ]),
    "C08": dict(entries=[
        E("expr", "h_cond_bytes", "every byte string of length 0..4 (thorough 0..5)", ["accepted", "rejected"], [par(hi=4, jobs=4)], [par(hi=5, jobs=8, time=600)]),
        E("expr", "h_cond_tokens", "sequences of 1..4 (thorough 1..5) tokens out of 11", ["accepted", "rejected"], [par(hi=4, jobs=4)], [par(hi=5, jobs=8, time=800)]),
        E("expr", "h_cond_mutated", "3 conditions with one byte replaced or inserted by any byte at any place, or cut at any place", ["accepted", "rejected"], [par(jobs=2)]),
    ]),
    "C09": dict(entries=[
        E("reg", "h_raw_int", "14 integer formats, every raw value", ["negative", "positive"], [par(jobs=4)]),
        E("reg", "h_raw_int", "14 integer formats, raw values in 20 windows of 256", ["negative", "positive"], [par(jobs=4, window=1)]),
        E("reg", "h_raw_scaled", "16 formats, every raw value, 6 scales, 3 offsets, 4 roundings", ["scaled"], [par(jobs=4)]),
        E("reg", "h_raw_scaled", "the same with 15 concrete raw values", ["scaled"], [par(jobs=2, concrete=1)]),
        E("reg", "h_raw_text", "every character, every string of 0..4 bytes, undefined values", ["done"], [par()]),
    ]),
    "C10": dict(entries=[
        E("reg", "h_text_bytes", "14 integer formats, every text of 0..2 bytes", ["integer", "rejected"], [par(hi=2, jobs=4)], [par(hi=3, jobs=8, time=600)]),
        E("reg", "h_text_chars", "5 formats, every text of 1..3 characters out of 16", ["integer", "rejected", "fraction"], [par(hi=3, jobs=4)], [par(hi=5, jobs=8, time=800)]),
        E("reg", "h_text_digits", "14 formats, every signed integer of 1..4 (thorough 1..10) digits", ["integer"], [par(hi=4, jobs=2)], [par(hi=10, jobs=4, time=300)]),
        E("reg", "h_text_edge", "14 formats, integers around the 64-bit limits", ["integer", "overflow", "hex"], [par(jobs=2)]),
        E("reg", "h_text_not_int", "14 formats, nan, inf and numbers beyond 64 bits", ["rejected"], [par()]),
        E("reg", "h_text_scaled", "6 formats, scales 1 to 0.001, texts of 1..4 (thorough 1..5) digits", ["scaled"], [par(hi=1, jobs=4)], [par(hi=2, jobs=8, time=600)]),
        E("reg", "h_text_roundtrip", "10 binary formats, raw values in 13 windows of 256", ["done"], [par(flo=0, fhi=9, jobs=2)]),
        E("reg", "h_text_roundtrip", "every raw value of the BCD formats", ["done"], [par(flo=10, fhi=13, jobs=2)]),
        E("reg", "h_text_float", "decimal numbers of 1..3 digits with 0..2 decimals, 3 scales, 3 offsets; with round_to of 0.5, 2 and 7", ["done"], [par(jobs=2), par(rlo=1, rhi=3, jobs=8)]),
        E("reg", "h_text_float_bad", "every text of 0..2 bytes", ["accepted", "rejected"], [par(jobs=2)]),
        E("reg", "h_text_char8", "every text of 0..3 bytes", ["done"], [par()]),
    ]),
    "C43": dict(entries=[
        E("reg", "h_value", "pairs of values of all kinds, strings of 0..2 bytes", ["done"], [par(jobs=2)]),
        E("reg", "h_register", "histories of 3 (thorough 5) operations", ["done", "unsupported", "error value"], [par(steps=3, jobs=4)], [par(steps=5, jobs=8, time=600)]),
        E("reg", "h_poll_interval", "3 (thorough 5) polls, periods 1..3000 ms, every step up to 40 s", ["done", "checked"], [par(n=3, jobs=2), par(n=11, lead=10, jobs=4)], [par(n=5, jobs=4, time=300), par(n=14, lead=11, jobs=8, time=300)]),
    ]),
    "C11": dict(entries=[
        E("modbus_base", "h_make_pdu", "9 functions, every address and count, 0..8 data bytes and 246..258 (even) data bytes", ["built", "refused"],
          [par(hi=8, jobs=4), par(lo=254, hi=258, jobs=4)], [par(hi=40, jobs=4, time=200), par(lo=240, hi=262, jobs=4, time=300)]),
        E("modbus_base", "h_response_size", "9 functions, 0..2000 registers", ["done"], [par()]),
        E("modbus_base", "h_function_codes", "all function codes", ["done"], [par()]),
    ]),
    "C12": dict(entries=[
        E("modbus_base", "h_extract", "9 functions, every response of 0..8 (thorough 0..32) bytes and of 254..259 bytes", ["accepted", "exception", "refused"],
          [par(hi=8, jobs=4), par(lo=254, hi=259, jobs=4)], [par(hi=32, jobs=4, time=200), par(lo=250, hi=262, jobs=4, time=200)]),
    ]),
    "C13": dict(entries=[
        E("modbus_base", "h_rtu", "every answer of 0..8 bytes, expected PDU 1..5 bytes, request PDU 1..2 bytes, byte-wise and burst delivery",
          ["accepted", "timeout", "foreign", "corrupted"], [par(hi=8, ehi=5, rhi=2, jobs=8)], [par(hi=14, ehi=11, rhi=6, jobs=8, time=600)]),
        E("modbus_base", "h_rtu_long", "PDUs of 250..253 bytes, one damaged, missing or extra byte", ["accepted", "corrupted"], [par(elo=252, ehi=253, jobs=4)], [par(elo=240, jobs=4, time=300)]),
    ]),
    "C14": dict(entries=[
        E("modbus_base", "h_tcp", "0..2 received frames with arbitrary headers, length field 0..3 or 300, cut header or body, 0..1 unanswered requests before",
          ["accepted", "timeout", "skipped"], [par(fhi=2, jobs=8)], [par(fhi=3, len=4, ehi=4, jobs=8, time=600)]),
        E("modbus_base", "h_tcp_ids", "4 (thorough 6) requests on two ports through two protocol objects", ["done"], [par()], [par(n=6)]),
    ]),
    "C15": dict(entries=[
        E("modbus", "h_mb_decode", "11 formats x 10 bit fields x word and byte orders x 4 register types, every memory content", ["done"], [par(jobs=8)]),
        E("modbus", "h_mb_decode_two", "two registers of 3 formats at distances 0..4 in one request, every memory content", ["done"], [par(jobs=4)]),
        E("modbus", "h_mb_decode_bits", "1..3 coils or discrete inputs at distances 1..18", ["done"], [par(jobs=4)]),
        E("modbus", "h_mb_decode_string", "strings of 1..3 (thorough 5) registers, both string formats, every content", ["done", "unsupported"], [par(n=3, jobs=4)], [par(n=5, jobs=8, time=400)]),
        E("modbus", "h_mb_decode_raw", "every answer of 0..7 (thorough 10) bytes to 4 kinds of requests", ["good", "bad"], [par(hi=7, jobs=8)], [par(hi=10, jobs=8, time=400)]),
        E("modbus", "h_mb_read_register", "4 kinds of registers, regular answers and every answer of 0..6 (thorough 10) bytes", ["good", "bad"], [par(hi=6, jobs=4)], [par(hi=10, jobs=8, time=300)]),
    ]),
    "C16": dict(entries=[
        E("modbus", "h_mb_write", "11 formats x 10 bit fields x word and byte orders x 3 register types, every memory content and value of the field's width", ["multi", "single"], [par(jobs=8)]),
        E("modbus", "h_mb_write", "the same with every value of the format's width", ["multi", "single"], [par(wide=1, jobs=8)]),
        E("modbus", "h_mb_write_misc", "coils, separate write addresses, strings of 1..6 characters in 2..3 registers, read-only types", ["coil", "write address", "string", "read only"], [par(jobs=4)]),
        E("modbus", "h_mb_write_fields", "3 (thorough 4) writes to 4 fields of one word, each accepted or failed", ["done"], [par(steps=3, jobs=8)], [par(steps=4, jobs=8, time=600)]),
    ]),
    "C17": dict(entries=[
        E("modbus", "h_mb_group", "2 (thorough 3) registers: every address, limit 0..65535, hole 0..4095, widths 1 and 4 words, bits, every availability", ["done", "holes", "together"],
          [par(n=2, jobs=8)], [par(n=3, jobs=8, time=600)]),
        E("modbus", "h_mb_group", "the same with continuous reading", ["done", "holes", "together"], [par(n=2, continuous=1, jobs=8)], [par(n=3, continuous=1, jobs=8, time=600)]),
        E("modbus", "h_mb_group", "3 available registers", ["done", "holes", "together"], [par(n=3, avail=1, jobs=8)]),
        E("modbus", "h_mb_group_unknown", "5 (thorough 7) bits known or not, every limit 0..3; 18 and 35 unknown bits", ["done", "full"],
          [par(n=5, jobs=8), par(n=18, max=0), par(n=35, max=0)], [par(n=7, max=5, jobs=8, time=300), par(n=18, max=0), par(n=35, max=0)]),
        E("modbus", "h_mb_group_time", "3 registers, 12 time limits", ["full", "some"], [par(jobs=4)]),
    ]),
    "C18": dict(entries=[
        E("modbus", "h_mb_setup", "2 items of 7 kinds on 3 addresses, every value and memory content, write limits 0..3", ["combined", "done"], [par(items=2, kinds=6, jobs=8)]),
        E("modbus", "h_mb_setup", "3 items of 2 (thorough 3) kinds on 3 addresses", ["combined", "done"], [par(items=3, kinds=1, jobs=8)], [par(items=3, kinds=2, jobs=8, time=300)]),
        E("modbus", "h_mb_setup", "2 items of 5 kinds, every failing write (refused, busy, silence) and failing reads", ["refused", "failed", "unreadable"], [par(items=2, failures=1, kinds=4, jobs=8)]),
        E("modbus", "h_mb_setup", "3 items of 2 kinds on 2 addresses with failures", ["combined", "refused", "failed", "unreadable"], [par(items=3, failures=1, kinds=1, addrs=1, jobs=4)],
          [par(items=4, failures=1, kinds=1, addrs=2, jobs=8, time=500)]),
        E("modbus", "h_mb_setup_string", "a text of 1..4 characters and a number", ["short", "full"], [par(jobs=4)]),
    ]),
    "C19": dict(entries=[
        E("modbus", "h_mb_errors", "2 registers, one reading with every outcome and exception code", ["ok", "excluded", "transient", "holes off"], [par(steps=1, jobs=8)]),
        E("modbus", "h_mb_errors", "3 (thorough 4) registers with and without a gap before each", ["ok", "excluded", "transient", "holes off"], [par(steps=1, n=3, mixed=1, known=1, codes=0, jobs=8)], [par(steps=2, n=4, mixed=1, known=1, outcomes=1, codes=0, jobs=8, time=300)]),
        E("modbus", "h_mb_errors", "2 registers, 2 readings with 6 outcomes", ["ok", "excluded", "transient", "holes off"], [par(steps=2, outcomes=2, jobs=8)], [par(steps=2, outcomes=2, n=3, jobs=8, time=600)]),
        E("modbus", "h_mb_errors", "2 registers, 3 readings that succeed or meet an illegal address", ["ok", "excluded", "holes off"], [par(steps=3, outcomes=1, codes=0, jobs=4)],
          [par(steps=4, outcomes=1, codes=0, n=3, jobs=8, time=600)]),
        E("modbus", "h_mb_errors", "2 registers, 2 readings of a device lost after 1..2 failures", ["ok", "lost", "holes off"], [par(steps=2, outcomes=2, codes=0, lose=1, jobs=8)],
          [par(steps=3, outcomes=2, codes=0, lose=1, jobs=8, time=600)]),
        E("modbus", "h_mb_prepare", "5 firmware versions and 3 answers to the continuous read request", ["known", "unknown", "silent"], [par(jobs=4)]),
        E("modbus", "h_mb_prepare", "2 connections of a device with 5 firmware versions and 3 answers each", ["known", "unknown", "silent", "updated", "connected"], [par(rounds=2, jobs=4)]),
        E("modbus", "h_mb_clock", "3 connections 0..30 hours apart, 2 device types, 4 firmware versions, 3 time zones and 3 outcomes", ["no clock", "first", "again", "failed", "fresh"], [par(jobs=8)], [par(rounds=4, jobs=8, time=400)]),
    ]),
    "C20": dict(entries=[
        E("modbus", "h_mb_io", "10 ids, 3 strides, 2 shifts, 4 register types", ["done", "rejected"], [par(jobs=4)]),
    ]),
    "C21": dict(entries=[
        E("ext", "h_ext_events", "answers of 0..12 (thorough 14) arbitrary bytes, every slave, sequence number and confirmation state", ["none", "one", "broken", "bad record"], [par(hi=12, jobs=4)], [par(hi=14, jobs=8, time=300)]),
        E("ext", "h_ext_events_regular", "answers of 0..4 events of 0..4 data bytes, every content", ["empty", "one", "several"], [par(events=4, jobs=4)]),
        E("ext", "h_ext_events_limit", "every time from -100 to 65435 ms, 5 speeds", ["least", "some", "most"], [par(jobs=2)]),
        E("ext", "h_ext_transaction", "answers of 1..8 (thorough 9) arbitrary bytes, every slave id", ["noise", "mismatch", "packet", "after noise"], [par(hi=8, jobs=8)], [par(hi=9, jobs=8, time=800)]),
        E("ext", "h_ext_transaction", "packets of all kinds with up to 20 data bytes after 0..3 arbitrary bytes", ["noise", "mismatch", "packet", "after noise"], [par(noise=3, plain=1, size=20, jobs=8)],
          [par(noise=1, size=3, jobs=8, time=800)]),
        E("ext", "h_ext_transaction", "answers of 1..7 bytes that come in chunks of 3", ["noise", "packet"], [par(hi=7, chunk=3, jobs=4)]),
    ]),
    "C22": dict(entries=[
        E("ext", "h_ext_enable", "0..3 registers of 2 types at distances 0..4, 3 priorities (3 registers: 2), every answer", ["none", "one"], [par(n=2, jobs=4), par(n=3, priorities=1, deltas=3, jobs=8)],
          [par(n=3, jobs=8, time=600)]),
        E("ext", "h_ext_enable", "2 registers at distances up to 12 around the end of the address space", ["one"], [par(n=2, base=65520, deltas=12, priorities=1, jobs=4)]),
        E("ext", "h_ext_enable_many", "60 (thorough 120) registers of 1..2 types, steps 1..7", ["one", "several"], [par(n=60, jobs=8)], [par(n=120, offsets=6, jobs=8, time=600)]),
        E("ext", "h_ext_enable_raw", "answers of 0..7 arbitrary bytes to requests of 1..2 settings of 1 or 10 registers", ["good", "bad", "exception"], [par(jobs=4)]),
    ]),
    "C23": dict(entries=[
        E("ext", "h_ext_scan", "3 (thorough 4) answers of 4 kinds, up to 8 arbitrary bytes", ["several", "end", "malformed", "silence"], [par(n=3, jobs=4)], [par(n=4, jobs=8, time=300)]),
        E("ext", "h_ext_sn", "3 serial numbers (thorough: every one), answers of 0..9 arbitrary bytes", ["good", "bad"], [par(hi=9, jobs=8)], [par(hi=9, anysn=1, jobs=8, time=500)]),
        E("ext", "h_ext_transaction", "packets of all kinds after 0..2 arbitrary bytes", ["noise", "mismatch", "packet", "after noise"], [par(noise=2, plain=1, jobs=4)]),
    ]),
    "C24": dict(entries=[
        E("dev", "h_mercury230_param", "answers of 0..13 arbitrary bytes, 5 register types, 2, 3, 4 and 8 bytes, 2 addresses", ["good", "bad", "wide"], [par(hi=10, jobs=8)], [par(hi=16, jobs=8, time=300)]),
        E("dev", "h_mercury230_array", "answers of 6 lengths (thorough: 0..20), every element of both array kinds", ["good", "bad", "outside"], [par(jobs=4)], [par(all=1, jobs=8, time=200)]),
        E("dev", "h_mercury230_mixed", "two reads of one array number as both kinds, every content", ["done"], [par(jobs=2)]),
        E("dev", "h_mercury230_session", "2 readings, 3 (thorough 6) free outcomes of 4 kinds, then for ever one kind", ["served", "refused", "failed"], [par(steps=3, forever=0, jobs=2), par(steps=3, forever=1, jobs=2), par(steps=3, forever=4, jobs=2)],
          [par(steps=6, forever=f, jobs=8, time=200) for f in (0, 1, 2, 3, 4)]),
        E("dev", "h_mercury230_cycle", "2 (thorough 3) registers of 5 arrays of 2 kinds read in 2 cycles", ["asked", "shared"], [par(n=2, jobs=2)], [par(n=3, jobs=8, time=200)]),
        E("dev", "h_mercury230_codes", "every error code", ["permanent", "other"], [par()]),
    ]),
    "C25": dict(entries=[
        E("dev", "h_milur", "answers of 0..14 arbitrary bytes, all register types, 1 and 4 byte addresses", ["good", "bad", "closed"], [par(hi=14, jobs=8)], [par(hi=18, jobs=8, time=600)]),
        E("dev", "h_milur_session", "2 readings, 3 (thorough 5) free outcomes of 4 kinds, every code, then for ever one kind", ["served", "failed"], [par(steps=3, forever=0, jobs=4), par(steps=3, forever=1, jobs=2), par(steps=3, forever=4, jobs=2)],
          [par(steps=5, forever=f, jobs=8, time=200) for f in (0, 1, 3, 4)]),
    ]),
    "C26": dict(entries=[
        E("dev", "h_mercury200", "answers of 0..12 (thorough 15) arbitrary bytes, 1..4 bytes at offsets 0..4, 3 commands", ["good", "bad"], [par(hi=12, jobs=4)], [par(hi=15, jobs=8, time=300)]),
        E("dev", "h_mercury200_long", "answers of 1..10 and 96..102 arbitrary bytes, every address", ["long", "short"], [par(jobs=8)]),
        E("dev", "h_mercury200_cache", "three registers of two commands in two cycles, every content", ["done"], [par()]),
    ]),
    "C27": dict(entries=[
        E("dev", "h_uniel_read", "answers of 0..8 (thorough 10) arbitrary bytes, every register", ["good", "bad"], [par(hi=8, jobs=4)], [par(hi=10, jobs=8, time=400)]),
        E("dev", "h_uniel_write", "answers of 6..8 (thorough 10) arbitrary bytes, every register and value", ["good", "bad"], [par(hi=8, jobs=4)], [par(hi=10, jobs=8, time=400)]),
    ]),
    "C28": dict(entries=[
        E("dev", "h_pulsar", "answers around the expected size (thorough: of every size up to it and 4 more), 5 value sizes, 3 (thorough 32) channels", ["good", "bad"], [par(jobs=8)], [par(all=1, addrs=1, extra=4, jobs=8, time=600)]),
        E("dev", "h_pulsar_stale", "an unanswered request, then its late answer to another", ["done"], [par()]),
    ]),
    "C29": dict(entries=[
        E("dev", "h_lls", "answers of 0..10 (thorough 14) arbitrary bytes, every address, 1..4 bytes at offsets 0..4", ["good", "bad"], [par(hi=10, jobs=8)], [par(hi=14, offsets=6, jobs=8, time=400)]),
        E("dev", "h_lls_cycle", "3 (thorough 5) readings of two registers of one command, every value, any of them unanswered", ["good", "silent"], [par(steps=3, jobs=8)], [par(steps=5, jobs=8, time=200)]),
    ]),
    "C30": dict(entries=[
        E("dev", "h_ivtm", "answers of 0..3 arbitrary bytes", ["bad", "wide"], [par(shape=0, hi=3, jobs=2)]),
        E("dev", "h_ivtm", "intact answers, 1..4 bytes, one (thorough two) of them arbitrary", ["good", "wide"], [par(shape=1, window=1, jobs=4)], [par(shape=1, window=2, jobs=8, time=200)]),
        E("dev", "h_ivtm", "one (thorough two) arbitrary byte(s) anywhere in an intact answer", ["good", "bad"], [par(shape=2, damage=1, window=0, jobs=8)], [par(shape=2, damage=2, window=0, jobs=8, time=300), par(shape=2, damage=1, window=1, jobs=8, time=300)]),
        E("dev", "h_ivtm", "intact answers of 0..8 bytes to requests of 1..4", ["good", "bad"], [par(shape=4, window=1, jobs=4)]),
        E("dev", "h_ivtm", "answers cut by 0..6 bytes", ["good", "bad"], [par(shape=3, window=0, jobs=2)]),
    ]),
    "C31": dict(entries=[
        E("dev", "h_s2k_read", "answers of 0..7 (thorough 12) arbitrary bytes, all configuration registers", ["good", "bad"], [par(hi=7, jobs=4)], [par(hi=12, jobs=8, time=200)]),
        E("dev", "h_s2k_relay", "2 (thorough 3) writes to relay numbers 0..6, every value and answer of 5..7 bytes", ["good", "bad", "invalid"], [par(steps=2, jobs=4)], [par(steps=3, jobs=8, time=400)]),
    ]),
    "C32": dict(entries=[
        E("dev3", "h_iec_fast_request", "1..13 registers of 64 (thorough 256) first parameters, two layouts, 3 device ids", ["request", "wrong"], [par(jobs=8)], [par(params=255, jobs=8, time=300)]),
        E("dev3", "h_iec_fast_values", "three registers of two parameters, each a number with 3 arbitrary digits or one of 3 errors, cut by 0..8 (thorough 20) characters", ["good", "bad"], [par(jobs=8)], [par(cut=20, jobs=8, time=400)]),
        E("dev3", "h_iec_fast_damaged", "one (thorough two) arbitrary byte(s) anywhere in a reply", ["good", "bad"], [par(jobs=8)], [par(damage=2, jobs=8, time=400)]),
        E("dev3", "h_iec_fast_any", "0..5 (thorough 6) arbitrary bytes, alone or framed", ["good", "bad"], [par(jobs=8)], [par(hi=6, jobs=8, time=400)]),
        E("dev3", "h_iec_session", "sessions of 3 drivers, 3 (thorough 11) failed sign-ons, every step failing in 3..4 ways, default and own passwords, baud rate remembered or not", ["opened", "failed"], [par(jobs=8)], [par(faults=11, jobs=8, time=300)]),
        E("dev3", "h_iec_session", "2 (thorough 3) sessions in turn, the speed remembered between them or not", ["opened", "failed"], [par(sessions=2, faults=0, simple=1, jobs=8)], [par(sessions=3, faults=2, simple=1, jobs=8, time=300)]),
        E("dev3", "h_iec_arguments", "3 (thorough 4) registers of 4 parameters with one name, every digit", ["done"], [par(n=3, jobs=8)], [par(n=4, jobs=8, time=200)]),
        E("dev3", "h_iec_neva", "replies with 1..5 items of 4 arbitrary digits, one (thorough two) arbitrary byte(s), cut anywhere, 0..4 (thorough 5) arbitrary bytes, errors, other parameters", ["good", "bad"], [par(jobs=8)], [par(damage=2, hi=5, jobs=8, time=600)]),
        E("dev3", "h_iec_energomera", "replies with 1..4 items of 4 arbitrary digits, dates and times; damage as above", ["good", "bad", "date"], [par(jobs=8)], [par(damage=2, hi=5, jobs=8, time=600)]),
        E("dev3", "h_iec_mode_c", "replies with 4 arbitrary digits, 3 formats; damage as above", ["good", "bad"], [par(jobs=8)], [par(damage=2, hi=5, jobs=8, time=600)]),
        E("dev3", "h_iec_cache", "two cycles of three registers, every digit, failing or not", ["done"], [par(jobs=4)]),
    ]),
    "C33": dict(entries=[
        E("dev", "h_energomera_ce", "intact answers with 0..8 data bytes, 2 adjacent ones arbitrary, 3 commands", ["good", "bad", "date"], [par(jobs=8)], [par(window=3, jobs=8, time=600)]),
        E("dev", "h_energomera_ce", "one (thorough two) arbitrary byte(s) anywhere in the answer", ["good", "bad", "date"], [par(window=0, damage=1, jobs=8)], [par(window=0, damage=2, jobs=8, time=600)]),
        E("dev", "h_energomera_ce_any", "0..4 (thorough 6) arbitrary bytes, alone or framed", ["good", "bad"], [par(hi=4, jobs=8)], [par(hi=6, jobs=8, time=600)]),
    ]),
    "C34": dict(entries=[
        E("dev2", "h_dooya_read", "answers of 0..10 (thorough 18) arbitrary bytes, at once or byte by byte, 5 register types", ["good", "bad", "text"], [par(hi=10, jobs=8)], [par(hi=18, jobs=8, time=400)]),
        E("dev2", "h_dooya_write", "answers of 6..9 (thorough 0..12) arbitrary bytes, every value, 4 register types", ["good", "bad"], [par(jobs=8)], [par(lo=0, hi=12, jobs=8, time=400)]),
        E("dev2", "h_windeco", "answers of 0..9 arbitrary bytes, readings, every value written", ["good", "bad"], [par(jobs=8)]),
        E("dev2", "h_somfy_read", "answers of 0..14 (thorough 32) arbitrary bytes, 6 registers", ["good", "bad"], [par(hi=14, jobs=8)], [par(hi=33, jobs=8, time=400)]),
        E("dev2", "h_somfy_write", "answers of 10..12 (thorough 0..16) arbitrary bytes, every position, tilt and command, 2 node types, 2 modes", ["good", "bad", "long"], [par(jobs=8)], [par(lo=0, hi=16, jobs=8, time=400)]),
        E("dev2", "h_somfy_param", "a reading of 0..5 (thorough 10) bytes, then 2 (thorough 3) writes of 4 fields, every value, confirmed or refused", ["good", "bad", "outside", "unread"], [par(jobs=8)], [par(hi=10, steps=3, jobs=8, time=400)]),
        E("dev2", "h_aok_read", "answers of 0..12 arbitrary bytes, at once or byte by byte, every kind of register", ["good", "bad"], [par(jobs=8)]),
        E("dev2", "h_aok_write", "every value, 3 register types", ["good"], [par()]),
        E("dev2", "h_aok_bits", "histories of 3 (thorough 4) readings and writes of 4 registers, every state and value, status answers failing at any point", ["good", "bad", "written", "failed"], [par(jobs=8)], [par(steps=4, jobs=8, time=600)]),
    ]),
    "C35": dict(entries=[
        E("plan", "h_queue", "histories of 4 (thorough 6) additions, removals and selections, all deadlines below 2^40 us", ["checked"],
          [par(steps=4, jobs=4)], [par(steps=6, jobs=8, time=600)]),
        E("plan", "h_select", "0..2 items of each priority, all deadlines and clock values below 2^40 us, 0..1 time updates before, every refusal", ["high", "low", "limited"],
          [par(upd=1, jobs=8)], [par(upd=2, nh=2, nl=3, jobs=8, time=800)]),
        E("plan", "h_history", "histories of 4 (thorough 6) operations", ["taken", "done"], [par(steps=4, jobs=4)], [par(steps=6, jobs=8, time=600)]),
    ]),
    "C36": dict(entries=[
        E("plan", "h_starvation", "4 (thorough 7) selections with both priorities always due, every duration", ["high", "low"], [par(steps=4, jobs=4)], [par(steps=7, jobs=8, time=600)]),
        E("plan", "h_balancer", "3 updates, every threshold, limit and duration", ["done"], [par(jobs=2)]),
        E("plan", "h_select", "0..1 items of each priority, 0..2 time updates before, every lag threshold up to 2^20 ms", ["high", "low", "limited"],
          [par(upd=2, nh=1, nl=1, jobs=4)], [par(upd=3, nh=2, nl=2, jobs=8, time=800)]),
    ]),
    "C37": dict(entries=[
        E("plan", "h_rate", "4 (thorough 6) instants with every step up to 3 s, limits 0..2", ["over", "done"], [par(n=4, limit=2, jobs=8)], [par(n=6, limit=4, jobs=8, time=800)]),
    ]),
    "C38": dict(entries=[
        E("client", "h_poll", "2 devices with 1..3 registers each (6 layouts: period, rate limit, zero limit, neither, write-only), periods 100/1500/60000 ms, every rate limit up to 100 s, every step up to 1000 s; "
          "2 (thorough 3) cycles with the port open or closed, every outcome", ["low", "closed", "done"],
          [par(steps=2, sporadic=1, permanent=1, jobs=8), par(steps=2, sessions=1, mri=1, jobs=8), par(steps=2, suspend=1, sporadic=1, jobs=8), par(steps=3, l0=1, l1=1, permanent=1, jobs=8),
           par(steps=3, l0=3, l1=3, sessions=1, jobs=8), par(steps=3, l0=0, l1=0, suspend=1, mri=1, jobs=8), par(steps=2, batch=1, jobs=8), par(steps=4, devs=1, l0=0, l1=0, suspend=1, permanent=1, jobs=8)],
          [par(steps=3, sporadic=1, permanent=1, jobs=8, time=200), par(steps=3, sessions=1, mri=1, jobs=8, time=200), par(steps=3, suspend=1, jobs=8, time=200), par(steps=4, l0=1, l1=1, jobs=8, time=100),
           par(steps=4, l0=3, l1=3, jobs=8, time=100)]),
        E("client", "h_poll_backoff", "1 (thorough also 2) devices, 24 failed readings 12 s apart, then 3 (thorough 4) cycles answered or not, every step up to 15 s; registers with and without a read rate limit", ["done", "low"],
          [par(steps=3, jobs=8), par(steps=3, limit=5000, jobs=8)], [par(steps=4, jobs=8, time=300), par(steps=4, limit=11000, jobs=8, time=300), par(devs=2, steps=4, jobs=8, time=300)]),
        E("client", "h_poll_limit", "1 (thorough 2) devices, 2..3 registers, 3 (thorough 4) cycles, every allowed time up to 200 ms, every time of a register up to 60 ms, every step up to 200 s", ["no time", "low", "high"],
          [par(steps=3, jobs=8)], [par(steps=4, devs=2, jobs=8, time=200)]),
        E("client", "h_poll_rate", "1 device, limits of 1 (thorough 1..2) registers per second, 4 (thorough 5) cycles, every step up to 3 s", ["over", "high", "low"], [par(steps=4, jobs=8)],
          [par(steps=5, jobs=8, time=200), par(steps=5, rate=2, jobs=8, time=200)]),
    ]),
    "C39": dict(entries=[
        E("serial", "h_device_state", "histories of 3 exchanges, sessions and disconnections, every clock step up to 2.3 h, timeouts 0/3000/-1, cycles 0..3/-1",
          ["connected", "disconnected", "setup"], [par(steps=3, jobs=8)], [par(steps=4, jobs=8, time=800)]),
        E("serial", "h_device_state", "histories of 6 (thorough 8) writes that succeed or fail", ["connected", "disconnected"], [par(steps=6, simple=1, jobs=4)], [par(steps=8, simple=1, jobs=8, time=400)]),
        E("serial", "h_device_range", "2 registers, every outcome", ["done"], [par(jobs=2)]),
        E("serial", "h_device_setup", "3 (thorough 4) setup items on up to 8 different registers", ["duplicate", "preserved", "sorted"], [par(items=3, jobs=4)], [par(items=4, jobs=8, time=600)]),
        E("serial", "h_slave_id", "pairs of 11 texts", ["done"], [par()]),
    ]),
    "C40": dict(entries=[
        E("serial", "h_port_reopen", "histories of 4 (thorough 7) cycles, every clock step up to 4.6 h, timeouts 0/1000/5000/-1, cycles 0..3/-1", ["closed", "open failed", "reopened"],
          [par(steps=4, jobs=8)], [par(steps=7, jobs=8, time=800)]),
        E("serial", "h_port_misc", "every pair of timeouts", ["done"], [par()]),
    ]),
    "C41": dict(entries=[
        E("serial", "h_pending_write", "histories of 4 (thorough 5) settings, attempts and postponements, every clock step up to 16 s, limit 10 s",
          ["written", "refused", "retry", "given up", "deferred", "cancelled", "invalid"], [par(steps=4, jobs=8)], [par(steps=5, jobs=8, time=600)]),
        E("serial", "h_pending_write", "the same with the limit 0", ["written", "refused", "given up", "cancelled"], [par(steps=3, zero=1, jobs=2)], [par(steps=5, zero=1, jobs=8, time=400)]),
    ]),
    "C42": dict(entries=[
        E("driver", "h_channel", "one channel of 1..2 registers, 3..5 cycles, every answer (values 0..9), policies on change / all / after an interval with every pause up to 130 s", ["value", "known", "unknown", "error"],
          [par(steps=4, jobs=4), par(steps=3, regs=2, jobs=8), par(steps=4, policy=1, timeout=0, jobs=4), par(steps=3, policy=2, jobs=8), par(steps=4, button=1, jobs=4), par(steps=4, onoff=1, jobs=8),
           par(steps=5, timeout=3000, reopen=1, jobs=8), par(steps=3, permanent=1, jobs=4)],
          [par(steps=6, jobs=8, time=100), par(steps=4, regs=2, jobs=8, time=200), par(steps=5, policy=2, jobs=8, time=400), par(steps=5, onoff=1, jobs=8, time=100)]),
        E("driver", "h_channel", "press counters on a device that is lost after any failure", ["zero", "value"], [par(steps=5, press=1, timeout=0, jobs=8), par(steps=3, regs=2, press=1, timeout=0, jobs=8), par(steps=4, press=1, timeout=0, policy=2, jobs=8)],
          [par(steps=7, press=1, timeout=0, jobs=8, time=300)]),
        E("driver", "h_channel", "values set over MQTT between the cycles, also with too many parts", ["write", "malformed", "refused"],
          [par(steps=3, write=1, jobs=8), par(steps=2, write=1, onoff=1, jobs=8), par(steps=2, regs=2, write=1, jobs=8), par(steps=3, write=1, timeout=0, jobs=8)],
          [par(steps=4, write=1, jobs=8, time=400), par(steps=3, write=1, onoff=1, jobs=8, time=300)]),
        E("driver", "h_channel_text", "texts of 0..2 characters, 3 cycles", ["done"], [par(policy=0, jobs=2), par(policy=1, jobs=2), par(policy=2, jobs=2)]),
        E("driver", "h_control", "5 types, 7 limits, all flags and orders", ["done"], [par(jobs=4)]),
    ]),
    "C56": dict(entries=[
        E("driver", "h_events_enable", "2..3 registers of 3 kinds and 3 modes with the same or different addresses, every acceptance, refusal, silence, broken answer, a gateway with and without events", ["enabled", "polled", "done"],
          [par(regs=3, jobs=8), par(regs=2, unsupported=1, jobs=8), par(regs=2, high=1, sporadic=1, jobs=8), par(regs=2, again=1, jobs=8)], [par(regs=3, unsupported=1, high=1, jobs=8, time=300), par(regs=3, again=1, jobs=8, time=100), par(regs=3, sporadic=1, jobs=8, time=100)]),
        E("driver", "h_events_read", "1..2 packets of 1..2 (thorough 3) events of 7 kinds from 3 devices, every data", ["event", "restart", "unexpected", "done"],
          [par(records=2, jobs=8), par(records=1, packets=2, jobs=4)], [par(records=3, jobs=8, time=100), par(records=2, packets=2, jobs=8, time=300)]),
        E("driver", "h_events_errors", "2 (thorough 3) readings of up to 4 requests each, every answer, closed ports", ["cleared", "closed", "error", "no error"], [par(jobs=8)], [par(calls=3, jobs=8, time=300)]),
    ]),
    "C57": dict(entries=[
        E("driver", "h_client", "1..2 devices of one register, 2..3 cycles, every step up to 16 s, limit 10 s, every outcome", ["written", "refused", "failed", "given up"],
          [par(steps=3, jobs=8), par(steps=2, devs=2, jobs=8), par(steps=2, prepare=1, jobs=8)], [par(steps=4, jobs=8, time=600), par(steps=2, devs=2, prepare=1, jobs=8, time=100)]),
        E("driver", "h_client", "port failures", ["closed", "put off", "written", "failed"], [par(steps=2, port=1, jobs=8)], [par(steps=3, port=1, jobs=8, time=200)]),
        E("driver", "h_client", "values that come while the client waits", ["late", "written", "failed", "refused"], [par(steps=2, late=1, jobs=8)], [par(steps=3, late=1, jobs=8, time=300)]),
        E("driver", "h_client", "registers that the firmware may lack", ["unsupported", "written"], [par(steps=2, unsupported=1, jobs=8)], [par(steps=3, unsupported=1, lost=0, jobs=8, time=300)]),
        E("driver", "h_client_events", "a device with one register read by events and one polled, 4 bus speeds, requests of 3 (thorough 53) durations, 1.6 s of work", ["slow", "fast"],
          [par(jobs=8)], [par(fine=1, jobs=8, time=300), par(ms=5000, jobs=8, time=100)]),
        E("driver", "h_client_events", "the polled register is silent", ["slow", "fast"], [par(silent=1, jobs=8)]),
        E("driver", "h_client_events", "a write error is pending", ["slow", "fast"], [par(write=1, jobs=8)]),
        E("driver", "h_client_events", "the port is closed and reopened", ["slow", "closed", "reopened"], [par(closed=1, minspeed=2, jobs=8)], [par(closed=1, jobs=8)]),
    ]),
    "C44": dict(entries=[
        E("port", "h_read_frame", "plain, serial, TCP and feature ports, 0..3 (thorough 4) chunks of 1..2 bytes, every pause up to 3 s and data, buffers of 1..4 bytes, every response timeout up to 2 s and frame timeout up to 0.5 s, "
          "no predicate, a length and an end byte", ["silence", "pause", "complete", "full"], [par(chunks=3, jobs=8), par(chunks=2, minimal=1, jobs=8)], [par(chunks=4, jobs=8, time=600), par(chunks=3, minimal=1, jobs=8, time=200)]),
        E("port", "h_ready_empty", "a descriptor ready without data before or after the first byte", ["closed", "ignored"], [par(jobs=2)]),
        E("port", "h_read_byte", "every timeout up to 3 s and arrival up to 5 s", ["byte", "timeout"], [par(jobs=2)]),
        E("port", "h_write_bytes", "1..4 bytes, complete, partial, failed and closed writes", ["written"], [par(jobs=2)]),
        E("port", "h_skip_noise", "4 (thorough 6) chunks with every pause up to 60 ms", ["rest", "dropped"], [par(chunks=4, jobs=4)], [par(chunks=6, jobs=8, time=300)]),
        E("port", "h_endless_noise", "a flow of 1300 bytes with every pause of 0.8..1 ms", ["reported"], [par(jobs=2)]),
        E("port", "h_open_serial", "all 264 line settings and pairs of speeds, every failure", ["open"], [par(jobs=8)]),
        E("port", "h_open_tcp", "every failure of opening a connection", ["open", "failed"], [par(jobs=2)]),
    ]),
    "C45": dict(entries=[
        E("port", "h_send_time", "11 speeds, 5..8 data bits, 3 parities, 1..2 stop bits, 0..300 (thorough 1000) bytes and bits", ["done"], [par(bytes=300, jobs=8)], [par(bytes=1000, jobs=8, time=400)]),
        E("dev", "h_dev_timeouts", "4 protocols of meters, 7 speeds, 5 response and 4 frame timeouts", ["done"], [par(jobs=4)]),
        E("port", "h_send_time_tcp", "0..300 bytes and bits", ["done"], [par()]),
        E("port", "h_timeouts", "11 speeds, every requested and minimal timeout up to 2^36 us and frame timeout up to 1000 s, 3 protocols", ["done"], [par(jobs=4)]),
    ]),
    "C46": dict(entries=[
        E("conf", "h_addr_num", "every 64-bit number, integer and floating point", ["good", "bad"], [par(jobs=4)]),
        E("conf", "h_addr_str", "texts of a number of 0..3 decimal or hex digits after prefixes that make it up to 2^32+, with an optional :shift:width of every value", ["good", "bad", "bits"], [par(jobs=8)]),
        E("conf", "h_addr_tail", "numbers followed by 1..2 arbitrary characters", ["number", "garbage"], [par(jobs=4)]),
        E("conf", "h_reg_addr", "numbers and texts as read and write addresses, with every base, stride and shift", ["good", "bad"], [par(jobs=4)]),
        E("conf", "h_reg_config", "options of a register: format, scale, offset, rounding, error values, orders, access", ["good", "bad"], [par(part=0, jobs=4), par(part=1, jobs=4), par(part=2, jobs=4), par(part=3, jobs=4)]),
        E("reg", "h_bit_offset", "19 formats, every offset 0..255 and width 0..64", ["good", "bad"], [par(jobs=4)]),
    ]),
    "C47": dict(entries=[
        E("conf", "h_merge_setup", "2 parameters as an object, with every value 0..3, default, condition, and readonly mark, setup items of the template and the user", ["written", "not written", "bad"], [par(jobs=8)]),
        E("conf", "h_merge_setup", "2 (thorough 3) declarations of 2 parameters as a list", ["written", "not written"], [par(array=1, jobs=8)], [par(array=1, n=3, jobs=8, time=500)]),
        E("conf", "h_merge_channels", "2 channels of the template, 1 of the user, equal or different names and every allowed and forbidden option", ["done", "condition", "bad"], [par(jobs=8)]),
        E("conf", "h_merge_channels", "options of the device; 2 channels of the user", ["done", "condition"], [par(options=1, n=1, jobs=8), par(users=2, n=1, jobs=8), par(default=1, n=1, jobs=8)]),
        E("conf", "h_merge_subdevice", "a subdevice of a fixed or chosen type of 2, also with one inside of it", ["bad", "done", "no choice"], [par(jobs=4), par(nested=1, jobs=4)]),
    ]),
    "C48": dict(entries=[
        E("fw", "h_flash", "every image of 0, 2 and 136 bytes (thorough: also 138 and 272), with and without the restart, every sequence of answers (acceptance, every exception, silence, damaged reply)", ["done", "failed", "restarted silently", "refused description", "repeated", "written already"], [par(sizes=2, jobs=8)], [par(sizes=4, jobs=8, time=500)]),
        E("fw", "h_flash", "the same as a task, port open or closed; 0 and 2 (thorough 136) bytes", ["done", "failed"], [par(sizes=1, task=1, jobs=8)], [par(sizes=2, task=1, jobs=8, time=300)]),
    ]),
    "C49": dict(entries=[
        E("fw", "h_state", "2 (thorough 3) changes of the updates of 2 devices, 2 kinds", ["active", "done"], [par(steps=2, jobs=8)], [par(steps=3, jobs=8, time=300)]),
        E("fw", "h_notifier", "2 (thorough 3) progress values 0..100, 30 and 7 notifications", ["done"], [par(n=30, jobs=4), par(n=7, jobs=4)], [par(n=30, steps=3, jobs=8, time=200), par(n=100, jobs=4), par(n=1, jobs=4)]),
        E("fw", "h_update", "a whole update of a device with up to 2 components: kind of update, restore, missing or incomplete index, missing or broken file, silent device, every sequence of refused writes, requests meanwhile", ["busy", "updated", "failed", "done"], [par(components=2, jobs=8)]),
        E("fw", "h_requests", "every slave id; missing and wrong members; a task that can not be started", ["started", "refused"], [par()]),
        E("fw", "h_info", "what is told about a device: versions, signature, model, component, missing index", ["component", "done"], [par(jobs=8)]),
        E("fw", "h_releases", "release lists of 2 signatures and 2 suites, with comments and other lines", ["done"], [par(jobs=8)]),
        E("fw", "h_releases_any", "every text of up to 3 (thorough 5) bytes in a release list", ["done"], [par(jobs=4)], [par(hi=5, jobs=8, time=200)]),
        E("fw", "h_cache", "3 requests of an index or a file, available or not, at times around its expiration", ["cached", "loaded", "unavailable"], [par(jobs=8)]),
    ]),
    "C50": dict(entries=[
        E("rpc", "h_hex", "every message of up to 4 (thorough 6) characters", ["accepted", "refused"], [par(hi=4, jobs=8)], [par(hi=6, jobs=8, time=400)]),
        E("rpc", "h_format", "every answer of up to 3 (thorough 8) bytes", ["done"], [par()], [par(hi=8, jobs=2)]),
        E("rpc", "h_raw", "a message of 1..3 bytes, an answer of 0..3 bytes, 0..3 expected, both formats, every delay before the execution, port open or closed, faults of opening, settings, writing, reading", ["done", "failed", "not opened", "expired"], [par(jobs=8)]),
        E("rpc", "h_modbus_params", "every 64-bit value of the slave id, addresses, counts and function", ["accepted", "refused"], [par()]),
        E("rpc", "h_modbus", "all functions, every address and data of 1..2 registers, every answer, exception code, silence, damaged answers, failed writes; RTU, TCP, by device id",
          ["done", "exception", "silence", "error"], [par(jobs=8), par(tcp=1, jobs=8), par(by_id=1, jobs=8)]),
        E("rpc", "h_setup", "0..2 devices, up to 4 parameters, by slave id or serial number, every sequence of outcomes", ["done", "failed"], [par(jobs=8)]),
        E("rpc", "h_setup_params", "every slave id", ["accepted", "refused"], [par()]),
        E("rpc", "h_probe", "every identity, faults of the serial number, polled devices; RTU and TCP", ["complete", "silent", "no serial number"], [par(jobs=8), par(tcp=1, jobs=8)]),
        E("rpc", "h_probe", "1 (thorough 2, 3) registers that are refused, silent, lost once or damaged", ["complete", "incomplete"], [par(faults=1, jobs=8)], [par(faults=2, jobs=8, time=200), par(faults=3, jobs=8, time=500)]),
        E("rpc", "h_scan", "0..2 (thorough 3) devices found, modes and versions of Fast Modbus, end, silence or damage", ["complete", "incomplete", "done", "interrupted"], [par(jobs=8)]),
    ]),
    "C59": dict(entries=[
        E("devrpc", "h_load", "channels and parameters with conditions, write-only and missing ones, every combination of requested items and of values of the device", ["channels", "done", "unknown item"],
          [par(values=1, jobs=8), par(wb=1, values=0, jobs=8), par(by_id=1, values=0, jobs=8), par(tcp=1, values=0, jobs=8)], [par(jobs=8, time=200), par(wb=1, jobs=8, time=400), par(by_id=1, jobs=8, time=200), par(tcp=1, jobs=8, time=200)]),
        E("devrpc", "h_load", "the same with a lost request or three", ["nothing lost", "lost"], [par(faults=1, missing=2, jobs=8)], [par(faults=1, jobs=8, time=200)]),
        E("devrpc", "h_load", "the same for a Wiren Board device", ["nothing lost", "lost", "recovered"], [par(faults=1, wb=1, missing=1, jobs=8)], [par(faults=1, wb=1, jobs=8, time=200)]),
        E("devrpc", "h_set", "every subset of channels and parameters, unknown ones, every value 0..9, parts of registers, a refused register", ["done", "failed", "nothing", "refused"],
          [par(jobs=8), par(wb=1, jobs=8), par(by_id=1, jobs=8)], [par(jobs=8), par(wb=1, jobs=8), par(by_id=1, jobs=8), par(tcp=1, jobs=8)]),
        E("devrpc", "h_set", "the same with a lost request", ["done", "failed", "nothing"], [par(faults=1, items=4, **{"from": 1}, jobs=8)], [par(faults=1, jobs=8, time=300)]),
        E("devrpc", "h_config", "parameters of the device, its configuration file and the cache", ["done"], [par(jobs=8)]),
        E("devrpc", "h_config", "the same for a Wiren Board device of a known or unknown model and version", ["done", "unknown device"], [par(wb=1, jobs=8), par(wb=1, by_id=1, jobs=8)]),
        E("devrpc", "h_config", "the same with a lost request or three", ["done", "lost", "recovered"], [par(wb=1, faults=1, jobs=8)]),
        E("devrpc", "h_config", "two requests and what happens between them", ["again", "set", "refused set", "changed", "done"], [par(wb=1, by_id=1, steps=2, jobs=8)], [par(by_id=1, steps=2, jobs=8), par(wb=1, by_id=1, steps=2, jobs=8, time=200)]),
        E("devrpc", "h_json", "texts of 0..3 bytes, integers of 12 ranges, fractions", ["text", "whole", "negative", "number"], [par(jobs=8)]),
    ]),
    "C60": dict(entries=[
        E("tmpl", "h_upload", "templates of the package and of the user, other files, use by a device, force, file names", ["done", "refused"], [par(jobs=4), par(nodir=1, jobs=4)]),
        E("tmpl", "h_upload", "contents that are no template", ["done", "refused"], [par(kinds=1, jobs=8)]),
        E("tmpl", "h_upload", "every failing operation of the file system, consistency before every operation", ["done", "refused", "failed"], [par(faults=1, jobs=8)], [par(faults=1, nodir=1, jobs=8, time=300)]),
        E("tmpl", "h_filename", "names of 0..2 (thorough 4) arbitrary characters and 4 endings", ["done", "refused"], [par(jobs=4)], [par(hi=4, jobs=8, time=200)]),
        E("tmpl", "h_delete", "templates of the package and of the user, use by a device, force, failing removal", ["done", "nothing left", "refused", "failed"], [par(jobs=4)]),
    ]),
    "C61": dict(entries=[
        E("confload", "h_old", "a port and a device with old and present forms of intervals, slave id and password, of a known, unknown or no type", ["done", "unknown type"], [par(jobs=8)]),
        E("confload", "h_old", "a device with 0..2 (thorough 3) channels of 6 kinds with intervals and enums", ["done", "unknown type"], [par(part=1, jobs=8)], [par(part=1, n=3, jobs=8, time=300)]),
        E("confload", "h_load_config", "0..2 ports of 3 kinds, each with 0..1 devices, enabled or not, with equal or different names", ["done", "refused"], [par(nd=1, jobs=8)], [par(nd=2, jobs=8, time=600)]),
        E("confload", "h_load_config", "0..1 ports of every kind with 0..2 (thorough 3) devices", ["done", "refused"], [par(nd=2, np=1, jobs=8)], [par(nd=3, np=1, jobs=8, time=300)]),
        E("confload", "h_load_config", "a port with every setting, a device", ["done", "refused"], [par(nd=1, rich=1, jobs=8)]),
    ]),
    "C55": dict(entries=[
        E("conf", "h_templates", "3 (thorough 4) changes or removals of 3 (thorough 4) template files of 2 types in 2 directories", ["removed", "updated", "done"], [par(jobs=8)], [par(steps=4, jobs=8, time=300), par(paths=4, jobs=8, time=300)]),
        E("conf", "h_nesting", "every reference between 2 and 3 subdevice types, also by choice", ["accepted", "cycle", "unknown"], [par(types=2, jobs=2), par(types=3, jobs=8), par(types=2, oneof=1, jobs=2)]),
        E("conf", "h_template_sections", "conditions, write addresses and declarations of parameters of 5 kinds in every place", ["good", "bad"], [par(jobs=8)]),
    ]),
    "C58": dict(entries=[
        E("conf", "h_build", "a device with channels, setup items and subdevices 1..2 deep, every enabled, hidden, shift, stride and address", ["done"],
          [par(jobs=8), par(limits=1, depth=0, jobs=4)], [par(depth=2, disabled=0, plain=1, jobs=8, time=300)]),
        E("conf", "h_build", "setup items of every level", ["done", "setup"], [par(setups=1, jobs=8)]),
        E("conf", "h_channel_options", "one channel of one register with every option", ["good", "broken"], [par(jobs=8)]),
        E("conf", "h_channel_options", "one channel of two registers", ["good", "bad"], [par(parts=2, jobs=8)]),
        E("conf", "h_duplicates", "2 (thorough 3) devices of 3 protocols on 2 ports with slave ids of one digit, decimal or hex", ["duplicate address", "fine", "same id"], [par(jobs=8)], [par(n=3, jobs=8, time=300)]),
    ]),
    "C54": dict(entries=[
        E("files", "h_iterate", "0..2 (thorough 3) files with names of 1..2 characters, patterns of 0..1 characters, every stop position", ["matched"],
          [par(files=2, jobs=4)], [par(files=3, plen=2, jobs=8, time=600)]),
        E("files", "h_no_dir", "missing directory or a file in its place", ["reported"], [par()]),
        E("files", "h_open", "0..3 candidate files, each present or not", ["opened", "none"], [par()]),
        E("files", "h_write_file", "every text of 0..3 bytes, existing or new file, missing directory", ["written"], [par()]),
    ]),
    "C53": dict(entries=[
        E("base", "h_running_average", "all values below 2^36 us", ["done"], [par()]),
        E("base", "h_running_average_bounds", "all 32-bit values", ["done"], [par()]),
    ]),
}

NOT_APPLICABLE = {
    "C51": "the DLMS driver needs the Gurux library, whose sources are absent from this tree: nothing of it can be compiled to IR",
    "C52": "the executor is sequential (one interleaving at call granularity); data races between threads need a weak-memory model of "
           "mutexes and threads that this engine does not have",
}
