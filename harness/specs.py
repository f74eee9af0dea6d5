"""What each check is built from. Repository sources are globs, so that a file
split or added next to the existing ones is picked up."""
CRYPTO = ["3rdparty/crypto/sha256.cpp", "3rdparty/crypto/siphash.cpp"]
BECH = ["3rdparty/bech32/bech32.cpp"]
COMMON = ["src/util/common/*.cpp"]
SER = ["src/util/serialization/*.cpp"]
TX = ["src/uhs/transaction/*.cpp", "!src/uhs/transaction/wallet.cpp"]
SECP = ["-lsecp256k1"]
BIG = dict(lib=["mc/bigmem.cpp"], link=["-Wl,--wrap=memset"])

# in-process transport instead of TCP
import os
FAKEDIR = ["-I" + os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "shim", "faketcp")]
FAKE = dict(tag="-fake", repoflags=FAKEDIR, flags=FAKEDIR)

SHARD = ["src/uhs/twophase/locking_shard/locking_shard.cpp",
         "src/uhs/twophase/locking_shard/interface.cpp",
         "src/uhs/twophase/locking_shard/format.cpp",
         "src/uhs/twophase/locking_shard/messages.cpp"]


def h(src, repo, libs=(), variant="asan", plainrepo=CRYPTO, **kw):
    return dict(src=["harness/" + s for s in src], repo=repo,
                libs=list(libs), variant=variant, plainrepo=plainrepo, **kw)


SM2PC = SHARD + ["src/uhs/twophase/locking_shard/state_machine.cpp",
                 "src/util/rpc/*.cpp",
                 "src/util/raft/serialization.cpp"]

STATUS = ["src/uhs/twophase/locking_shard/status_client.cpp",
          "src/uhs/twophase/locking_shard/status_server.cpp"]

NET = ["src/util/network/*.cpp"]

WT = ["src/uhs/atomizer/watchtower/*.cpp", "!src/uhs/atomizer/watchtower/*d.cpp",
      "!src/uhs/atomizer/watchtower/controller.cpp", "!src/uhs/atomizer/watchtower/client.cpp",
      "src/uhs/atomizer/atomizer/block.cpp", "src/uhs/atomizer/atomizer/format.cpp",
      "src/uhs/atomizer/atomizer/atomizer.cpp"]

RAFT = ["src/util/raft/*.cpp"]
ARAFT = RAFT + ["src/uhs/atomizer/atomizer/atomizer_raft.cpp",
                "src/uhs/atomizer/atomizer/state_machine.cpp"]

ASHARD = ["src/uhs/atomizer/shard/*.cpp", "!src/uhs/atomizer/shard/shardd.cpp",
          "!src/uhs/atomizer/shard/controller.cpp"]

ARCH = ["src/uhs/atomizer/archiver/*.cpp", "!src/uhs/atomizer/archiver/archiverd.cpp"]

FOLLOW = ["src/uhs/atomizer/archiver/client.cpp", "src/uhs/atomizer/watchtower/controller.cpp",
          "src/uhs/atomizer/watchtower/client.cpp", "src/uhs/atomizer/shard/*.cpp",
          "!src/uhs/atomizer/shard/shardd.cpp"]

TWOPC = ["src/uhs/twophase/coordinator/*.cpp", "!src/uhs/twophase/coordinator/coordinatord.cpp",
         "src/uhs/twophase/locking_shard/*.cpp", "!src/uhs/twophase/locking_shard/locking_shardd.cpp",
         "src/util/rpc/*.cpp"]

TICKET = ["src/util/rpc/*.cpp", "src/parsec/ticket_machine/*.cpp",
          "!src/parsec/ticket_machine/ticket_machined.cpp"]

SENT2PC = ["src/uhs/twophase/sentinel_2pc/*.cpp", "!src/uhs/twophase/sentinel_2pc/sentineld_2pc.cpp",
           "src/uhs/sentinel/*.cpp", "src/uhs/twophase/coordinator/client.cpp", "src/uhs/twophase/coordinator/format.cpp",
           "src/util/rpc/*.cpp"]
CLIENT = ["src/uhs/client/*.cpp", "!src/uhs/client/client-cli.cpp", "src/uhs/transaction/wallet.cpp",
          "src/uhs/sentinel/*.cpp", "src/util/rpc/*.cpp", "src/util/network/*.cpp",
          "src/uhs/twophase/coordinator/client.cpp", "src/uhs/twophase/coordinator/format.cpp",
          "src/uhs/twophase/locking_shard/status_client.cpp", "src/uhs/twophase/locking_shard/format.cpp",
          "src/uhs/twophase/locking_shard/messages.cpp", "src/uhs/twophase/locking_shard/interface.cpp",
          "src/util/raft/serialization.cpp", "src/util/raft/messages.cpp",
          "src/uhs/atomizer/watchtower/*.cpp", "!src/uhs/atomizer/watchtower/*d.cpp",
          "!src/uhs/atomizer/watchtower/controller.cpp",
          "src/uhs/atomizer/atomizer/block.cpp", "src/uhs/atomizer/atomizer/format.cpp",
          "src/uhs/atomizer/atomizer/atomizer.cpp"]

# the transport's templates are instantiated wherever a client is destroyed
PRE = ["-include", "util/serialization/format.hpp", "-include", "util/rpc/format.hpp",
       "-include", "uhs/transaction/messages.hpp", "-include", "uhs/sentinel/format.hpp",
       "-include", "uhs/twophase/coordinator/format.hpp", "-include", "uhs/twophase/locking_shard/format.hpp"]
LUA = ["src/parsec/agent/*.cpp", "!src/parsec/agent/agentd.cpp", "src/parsec/agent/runners/*.cpp",
       "src/parsec/agent/runners/lua/*.cpp", "src/parsec/util.cpp"]
LUAI = ["-I/usr/include/lua5.4"]

RAFTLOG = ["src/util/raft/log_store.cpp", "src/util/raft/state_manager.cpp",
           "src/util/raft/index_comparator.cpp"]

CHECKS = {
    "C01": [("c01", h(["c01.cpp"], COMMON + SER + TX + SM2PC,
                      SECP + ["-lleveldb"], "plain", flags=["-DWITH_SM"], **BIG)),
            ("c01s", h(["c02s.cpp"], COMMON + SER + TX + SM2PC, SECP + ["-lleveldb"], "sched",
                      lib=["mc/bigsched.cpp"], link=["-Wl,--wrap=memset"],
                      flags=["-DWITH_SM", '-DPROP=\\"C01\\"']))],
    "C02": [("c02", h(["c01.cpp"], COMMON + SER + TX + SM2PC,
                      SECP + ["-lleveldb"], "plain",
                      flags=["-DWITH_SM", '-DPROP=\\"C02\\"'], **BIG)),
            ("c02s", h(["c02s.cpp"], COMMON + SER + TX + SM2PC, SECP + ["-lleveldb"], "sched",
                      lib=["mc/bigsched.cpp"], link=["-Wl,--wrap=memset"],
                      flags=["-DWITH_SM", '-DPROP=\\"C02\\"']))],
    "C19": [("c19", h(["c19.cpp"], ["src/util/common/thread_pool.cpp"], [], "sched", []))],
    "C20": [("c20", h(["c20.cpp"], COMMON + NET + SER, SECP, "sched"))],
    "C21": [("c21", h(["c21.cpp"], COMMON + NET + SER, SECP, "sched"))],
    "C22": [("c22", h(["c22.cpp"], COMMON + NET + SER + ["src/util/rpc/*.cpp"], SECP, "sched"))],
    "C32": [("c32", h(["c32.cpp"], [], [], "plain", [])),
            ("c32s", h(["c32.cpp"], [], [], "sched", [], flags=["-DCONCURRENT"]))],
    "C10": [("c10", h(["c10.cpp"], COMMON + SER + TX + WT, SECP, "plain", **BIG)),
            ("c10s", h(["c10.cpp"], COMMON + SER + TX + WT, SECP, "sched", flags=["-DCONCURRENT"]))],
    "C05": [("c05", h(["c05.cpp"], COMMON + SER + TX + WT, SECP, "plain", **BIG))],
    "C06": [("c06", h(["c06.cpp"], COMMON + SER + TX + WT + ARAFT, SECP + ["-lleveldb"], "plain", **BIG)),
            ("c06s", h(["c06.cpp"], COMMON + SER + TX + WT + ARAFT, SECP + ["-lleveldb"], "sched", flags=["-DCONCURRENT"]))],
    "C07": [("c07", h(["c07.cpp"], COMMON + SER + TX + WT + ARAFT, SECP + ["-lleveldb"], "plain",
                      lib=["mc/bigmem.cpp", "mc/recfs.cpp"], link=["-Wl,--wrap=memset"]))],
    "C08": [("c08", h(["c08.cpp"], COMMON + SER + TX + WT + ASHARD, SECP + ["-lleveldb"], "plain",
                      lib=["mc/bigmem.cpp", "mc/recfs.cpp"], link=["-Wl,--wrap=memset"])),
            ("c08s", h(["c08.cpp"], COMMON + SER + TX + WT + ASHARD, SECP + ["-lleveldb"], "sched",
                       flags=["-DCONCURRENT"], lib=["mc/memdb.cpp"]))],
    "C09": [("c09", h(["c09.cpp"], COMMON + SER + TX + WT + NET + ARCH, SECP + ["-lleveldb"], "plain",
                      lib=["mc/bigmem.cpp", "mc/recfs.cpp"], link=["-Wl,--wrap=memset"])),
            ("c09s", h(["c09.cpp"], COMMON + SER + TX + WT + NET + ARCH, SECP + ["-lleveldb"], "sched",
                       flags=["-DCONCURRENT"], lib=["mc/memdb.cpp"]))],
    "C34": [("c34", h(["c34.cpp"], COMMON + SER + TX + WT + NET + FOLLOW, SECP + ["-lleveldb"], "sched",
                      lib=["mc/memdb.cpp", "mc/bigsched.cpp"], link=["-Wl,--wrap=memset"]))],
    "C35": [("c35", h(["c35.cpp"], COMMON + SER + TX + WT + NET + ARAFT + ["src/uhs/atomizer/atomizer/controller.cpp"],
                      SECP + ["-lleveldb"], "sched", lib=["mc/bigsched.cpp"], link=["-Wl,--wrap=memset"]))],
    "C11": [("c11", h(["c11.cpp"], COMMON + SER + ["src/parsec/runtime_locking_shard/impl.cpp"], SECP, "plain", **BIG)),
            ("c11s", h(["c11.cpp"], COMMON + SER + ["src/parsec/runtime_locking_shard/impl.cpp"], SECP, "sched",
                       flags=["-DCONCURRENT"]))],
    "C12": [("c12", h(["c11.cpp"], COMMON + SER + ["src/parsec/runtime_locking_shard/impl.cpp"], SECP, "plain",
                      flags=['-DPROP=\\"C12\\"'], **BIG))],
    "C13": [("c13", h(["c13.cpp"], COMMON + SER + ["src/parsec/runtime_locking_shard/impl.cpp", "src/parsec/broker/impl.cpp"],
                      SECP, "plain", **BIG))],
    "C14": [("c14", h(["c13.cpp"], COMMON + SER + ["src/parsec/runtime_locking_shard/impl.cpp", "src/parsec/broker/impl.cpp"],
                      SECP, "plain", flags=['-DPROP=\\"C14\\"'], **BIG))],
    "C15": [("c15", h(["c15.cpp"], COMMON + SER + RAFT + ["src/util/rpc/*.cpp", "src/parsec/runtime_locking_shard/*.cpp",
                      "!src/parsec/runtime_locking_shard/runtime_locking_shardd.cpp"],
                      SECP + ["-lleveldb"], "asan", **FAKE))],
    "C16": [("c16", h(["c16.cpp"], COMMON + SER + RAFT + TICKET, SECP + ["-lleveldb"], "asan", **FAKE)),
            ("c16s", h(["c16.cpp"], COMMON + SER + RAFT + TICKET, SECP + ["-lleveldb"], "sched",
                       tag="-fake", repoflags=FAKEDIR, flags=FAKEDIR + ["-DCONCURRENT"]))],
    "C17": [("c17", h(["c17.cpp"], COMMON + SER + ["src/parsec/agent/impl.cpp", "src/parsec/agent/interface.cpp",
                      "src/parsec/agent/runners/interface.cpp", "src/parsec/util.cpp"], SECP, "asan")),
            ("c17s", h(["c17s.cpp"], COMMON + SER + LUA + ["src/util/rpc/*.cpp"], SECP + ["-llua5.4"], "sched",
                       tag="-lua", repoflags=FAKEDIR + LUAI, flags=FAKEDIR + LUAI))],
    "C18": [("c18", h(["c18.cpp"], COMMON + SER + LUA + ["src/util/rpc/*.cpp"],
                      SECP + ["-llua5.4"], "asan", flags=FAKEDIR + LUAI, repoflags=FAKEDIR + LUAI, tag="-lua"))],
    "C03": [("c03", h(["c03.cpp"], COMMON + SER + TX + RAFT + TWOPC, SECP + ["-lleveldb"], "sched",
                      lib=["mc/bigsched.cpp"], link=["-Wl,--wrap=memset"], **FAKE))],
    "C04": [("c04", h(["c03.cpp"], COMMON + SER + TX + RAFT + TWOPC, SECP + ["-lleveldb"], "sched",
                      lib=["mc/bigsched.cpp"], link=["-Wl,--wrap=memset"], tag="-fake", repoflags=FAKEDIR,
                      flags=FAKEDIR + ['-DPROP=\\"C04\\"']))],
    "C23": [("c23", h(["c23.cpp"], COMMON + SER + TX + WT + RAFT + ARAFT + ["src/util/rpc/format.cpp", "src/parsec/agent/format.cpp",
                      "src/parsec/runtime_locking_shard/format.cpp", "src/uhs/sentinel/format.cpp", "src/uhs/sentinel/interface.cpp",
                      "src/uhs/twophase/coordinator/format.cpp", "src/uhs/twophase/locking_shard/format.cpp"],
                      SECP + ["-lleveldb"], "asan"))],
    "C24": [("c24", h(["c24.cpp"], COMMON + SER + TX + CLIENT + ["src/uhs/client/client-cli.cpp"], SECP + ["-lleveldb"], "asan",
                      tag="-cli", repoflags=FAKEDIR + ["-Dmain=cli_main"], client_pre=PRE, flags=FAKEDIR + PRE, plainrepo=CRYPTO + BECH))],
    "C25": [("c25", h(["c25.cpp"], COMMON + SER + TX, SECP, "asan"))],
    "C26": [("c26", h(["c26.cpp"], COMMON + SER + TX + SENT2PC + RAFT + ["src/uhs/twophase/coordinator/state_machine.cpp"], SECP + ["-lleveldb"], "asan", **FAKE)),
            ("c26d", h(["c26.cpp"], COMMON + SER + TX + WT + RAFT + ARAFT + SHARD + SENT2PC, SECP + ["-lleveldb"], "plain",
                       lib=["mc/bigmem.cpp"], link=["-Wl,--wrap=memset"], tag="-fake", repoflags=FAKEDIR,
                       flags=FAKEDIR + ["-DDOWNSTREAM"])),
            ("c26s", h(["c26.cpp"], COMMON + SER + TX + NET + SENT2PC + RAFT + ["src/uhs/twophase/coordinator/state_machine.cpp",
                       "src/uhs/atomizer/sentinel/*.cpp", "!src/uhs/atomizer/sentinel/sentineld.cpp"],
                       SECP + ["-lleveldb"], "sched", tag="-fake", repoflags=FAKEDIR, flags=FAKEDIR + ["-DCONCURRENT"]))],
    "C27": [("c27", h(["c27.cpp"], COMMON + SER + TX + ["src/uhs/transaction/wallet.cpp"], SECP, "asan", plainrepo=CRYPTO,
                      lib=["mc/recfs.cpp"])),
            ("c27s", h(["c27.cpp"], COMMON + SER + TX + ["src/uhs/transaction/wallet.cpp"], SECP, "sched", flags=["-DCONCURRENT"]))],
    "C28": [("c28s", h(["c28.cpp"], COMMON + SER + TX + CLIENT, SECP + ["-lleveldb"], "sched", tag="-fake", repoflags=FAKEDIR,
                      client_pre=PRE, flags=FAKEDIR + PRE + ["-DCONCURRENT"], plainrepo=CRYPTO + BECH)),
            ("c28", h(["c28.cpp"], COMMON + SER + TX + CLIENT, SECP + ["-lleveldb"], "asan", tag="-fake", repoflags=FAKEDIR,
                      client_pre=PRE, flags=FAKEDIR + PRE, plainrepo=CRYPTO + BECH, lib=["mc/recfs.cpp"]))],
    "C29": [("c29", h(["c29.cpp"], COMMON + SER + RAFTLOG, SECP + ["-lleveldb"], "asan", lib=["mc/recfs.cpp"])),
            ("c29s", h(["c29.cpp"], COMMON + SER + RAFTLOG, SECP + ["-lleveldb"], "sched", flags=["-DCONCURRENT"], lib=["mc/memdb.cpp"]))],
    "C30": [("c30", h(["c30.cpp"], COMMON + SER + ["src/parsec/util.cpp"], SECP, "asan"))],
    "C31": [("c31", h(["c31.cpp"], COMMON + SER + TX + SHARD + STATUS + ASHARD + RAFT + [
                      "src/uhs/atomizer/atomizer/*.cpp", "!src/uhs/atomizer/atomizer/atomizer-raftd.cpp",
                      "!src/uhs/atomizer/atomizer/controller.cpp",
                      "src/uhs/twophase/locking_shard/client.cpp", "src/uhs/twophase/coordinator/distributed_tx.cpp",
                      "src/parsec/directory/impl.cpp", "src/parsec/broker/impl.cpp", "src/util/rpc/*.cpp", "src/uhs/sentinel/format.cpp",
                      "src/uhs/sentinel/interface.cpp", "src/uhs/twophase/coordinator/format.cpp", "src/uhs/twophase/coordinator/state_machine.cpp",
                      "src/uhs/atomizer/watchtower/*.cpp", "!src/uhs/atomizer/watchtower/watchtowerd.cpp", "!src/uhs/atomizer/watchtower/controller.cpp",
                      "!src/uhs/atomizer/watchtower/client.cpp",
                      "src/parsec/agent/format.cpp", "src/parsec/runtime_locking_shard/format.cpp"],
                      SECP + ["-lleveldb"], "plain", lib=["mc/bigmem.cpp"], link=["-Wl,--wrap=memset"], **FAKE)),
            ("c31s", h(["c26.cpp"], COMMON + SER + TX + NET + SENT2PC + RAFT + ["src/uhs/twophase/coordinator/state_machine.cpp",
                       "src/uhs/atomizer/sentinel/*.cpp", "!src/uhs/atomizer/sentinel/sentineld.cpp"],
                       SECP + ["-lleveldb"], "sched", tag="-fake", repoflags=FAKEDIR,
                       flags=FAKEDIR + ["-DCONCURRENT", "-DROUTING", '-DPROP=\\"C31\\"'])),
            ("c31c", h(["c03.cpp"], COMMON + SER + TX + RAFT + TWOPC, SECP + ["-lleveldb"], "sched",
                      lib=["mc/bigsched.cpp"], link=["-Wl,--wrap=memset"], tag="-fake", repoflags=FAKEDIR,
                      flags=FAKEDIR + ['-DPROP=\\"C31\\"']))],
}
