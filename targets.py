DEFS = """APPLICATION_VERSION_MAJOR=0 APPLICATION_VERSION_MINOR=0 APPLICATION_VERSION_PATCH=0
TARGET_PLATFORM=Linux TARGET_ARCHITECTURE=x86_64 TESTING ASIO_HAS_MOVE BOOST_ASIO_HAS_MOVE
ASIO_HAS_STD_ARRAY BOOST_ASIO_HAS_STD_ARRAY ASIO_HAS_STD_ATOMIC BOOST_ASIO_HAS_STD_ATOMIC
ASIO_HAS_STD_SHARED_PTR BOOST_ASIO_HAS_STD_SHARED_PTR ASIO_HAS_STD_CHRONO BOOST_ASIO_HAS_STD_CHRONO
ASIO_HAS_STD_SYSTEM_ERROR BOOST_ASIO_HAS_STD_SYSTEM_ERROR ASIO_HAS_VARIADIC_TEMPLATES
BOOST_ASIO_HAS_VARIADIC_TEMPLATES BOOST_FILESYSTEM_NO_DEPRECATED BOOST_FILESYSTEM_VERSION=3
BOOST_THREAD_VERSION=4 BOOST_RESULT_OF_USE_DECLTYPE _FILE_OFFSET_BITS=64 HAVE_PTHREAD MAIDSAFE_LINUX
COMPANY_NAME=MaidSafe APPLICATION_NAME=Verif""".split()

BOOST = ["-lboost_thread", "-lboost_filesystem", "-lboost_system", "-lboost_chrono",
         "-lboost_date_time", "-lboost_program_options"]

COMMON = ["utils.cc", "crypto.cc", "error.cc", "error_categories.cc", "identity.cc", "encode.cc", "config.cc",
          "data_types/data.cc", "clock.cc"]
CRYPTO = ["-lcryptopp"]
UTILS = "-include asio/io_service.hpp"

SDV = {"harness": ["sdv.cc"], "repo": ["data_types/structured_data_versions.cc", "data_types/immutable_data.cc", "data_types/mutable_data.cc"] + COMMON, "sim": ["sys.cc"],
       "libs": CRYPTO + BOOST, "flags": UTILS}

TARGETS = {
    "sdv": dict(SDV, variant="dbg"),
    "ser": {"harness": ["ser.cc"], "repo": SDV["repo"], "sim": ["sys.cc"], "libs": CRYPTO + BOOST, "flags": UTILS + " -DHAVE_FLY"},
    "sdvr": dict(SDV, variant="rel"),
    "console": {"harness": ["console.cc"], "repo": ["cli.cc", "menu.cc", "menu_item.cc", "log.cc", "active.cc"] + COMMON,
                "sim": ["sys.cc"], "libs": CRYPTO + BOOST, "flags": UTILS},
    "logging": {"harness": ["logging.cc"], "repo": ["log.cc", "active.cc"] + COMMON, "sim": ["io.cc", "sys.cc"],
                "libs": CRYPTO + BOOST, "flags": UTILS, "variant": "log"},
    "vlog": {"harness": ["vlog.cc"], "repo": ["visualiser_log.cc", "log.cc", "active.cc"] + COMMON, "sim": ["io.cc", "sys.cc", "net.cc"],
             "libs": CRYPTO + BOOST, "flags": UTILS, "variant": "log"},
    "btool": {"harness": ["btool.cc"], "repo": ["log.cc", "active.cc"] + COMMON, "sim": ["io.cc", "sys.cc"],
              "libs": CRYPTO + BOOST, "flags": UTILS, "variant": "log"},
    "signing": {"harness": ["signing.cc"], "repo": ["rsa.cc"] + COMMON, "sim": ["io.cc", "sys.cc"],
                "libs": CRYPTO + BOOST, "flags": UTILS + " -DVerifierFilter=SignatureVerificationFilter"},
    "crypto": {"harness": ["crypto.cc"], "repo": ["rsa.cc"] + COMMON, "sim": ["io.cc", "sys.cc"],
               "libs": CRYPTO + BOOST, "flags": UTILS + " -DVerifierFilter=SignatureVerificationFilter"},
    "secure": {"harness": ["secure.cc"], "repo": ["authentication/detail/secure_string.cc", "authentication/user_credential_utils.cc"] + COMMON,
               "sim": ["sys.cc"], "libs": CRYPTO + BOOST + ["-lboost_regex"], "flags": UTILS, "variant": "dbg"},
    "sys": {"harness": ["sys.cc"], "repo": ["process.cc"] + COMMON, "sim": ["sys.cc"], "libs": CRYPTO + BOOST, "flags": UTILS},
    "ipc": {"harness": ["ipc.cc"], "repo": ["ipc.cc"] + COMMON, "sim": ["shm.cc"], "libs": CRYPTO + BOOST,
            "flags": UTILS + " -DBOOST_INTERPROCESS_MANAGED_OPEN_OR_CREATE_INITIALIZE_TIMEOUT_SEC=5"},
    "sqlite": {"harness": ["sqlite.cc"], "repo": ["sqlite3_wrapper.cc"] + COMMON, "sim": ["db.cc", "sys.cc"],
               "libs": CRYPTO + BOOST + ["-lsqlite3"], "flags": UTILS},
    "ioserv": {"harness": ["ioserv.cc"], "repo": ["log.cc", "active.cc"] + COMMON, "sim": ["io.cc", "net.cc", "sys.cc"],
               "libs": CRYPTO + BOOST, "flags": UTILS},
    "tcp": {"harness": ["tcp.cc"], "repo": ["tcp/connection.cc", "tcp/listener.cc", "log.cc", "active.cc"] + COMMON,
            "sim": ["io.cc", "net.cc", "sys.cc"], "libs": CRYPTO + BOOST, "flags": UTILS},
    "lru": {"harness": ["lru.cc"], "repo": ["error.cc", "error_categories.cc"], "libs": BOOST},
    "databuf": {"harness": ["databuf.cc"], "repo": ["data_buffer.cc"] + COMMON, "sim": ["io.cc"],
                "libs": CRYPTO + BOOST, "flags": UTILS},
    "support": {"harness": ["support.cc"], "repo": ["test.cc", "log.cc", "active.cc"] + COMMON, "sim": ["io.cc", "sys.cc", "net.cc"],
                "libs": CRYPTO + ["-lgtest"] + BOOST, "flags": UTILS + " -include test_shim.h"},
    "files": {"harness": ["files.cc"], "repo": COMMON, "sim": ["io.cc"], "libs": CRYPTO + BOOST, "flags": UTILS},
    "conc": {"harness": ["conc.cc"], "repo": ["active.cc", "profiler.cc"], "libs": ["-lboost_thread", "-lboost_system"]},
    "active": {"harness": ["active.cc"], "repo": ["active.cc"], "libs": ["-lboost_thread", "-lboost_system"]},
}

PROPS = {
    "C12": {"target": "tcp"},
    "C13": {"target": "tcp"},
    "C14": {"target": "tcp"},
    "C15": {"target": "tcp"},
    "C04": {"target": "ioserv"},
    "C16": {"target": "sqlite"},
    "C17": {"target": "sqlite"},
    "C28": {"target": "ipc"},
    "C29": {"target": "secure"},
    "C30": {"target": "secure"},
    "C25": {"target": "crypto"},
    "C26": {"target": "crypto"},
    "C31": {"target": "crypto"},
    "C22": {"target": "logging"},
    "C34": {"target": "vlog"},
    "C38": {"target": "support"},
    "C45": {"target": "btool"},
    "C46": {"target": "signing"},
    "C39": {"target": "support"},
    "C21": {"target": "ser"},
    "C20": {"target": "sdvr"},
    "C19": {"target": "sdv"},
    "C18": {"target": "sdv"},
    "C27": {"target": "console"},
    "C32": {"target": "sys"},
    "C33": {"target": "sys"},
    "C35": {"target": "sys"},
    "C36": {"target": "sys"},
    "C37": {"target": "files"},
    "C11": {"target": "lru"},
    "C09": {"target": "databuf"},
    "C08": {"target": "databuf"},
    "C07": {"target": "databuf"},
    "C06": {"target": "databuf"},
    "C05": {"target": "databuf"},
    "C10": {"target": "files"},
    "C03": {"target": "conc"},
    "C23": {"target": "conc"},
    "C24": {"target": "conc"},
    "C01": {"target": "active"},
    "C02": {"target": "active"},
}

PURE = ("A pure function of its inputs: no schedule, clock, I/O, fault or interleaving for a simulator to "
        "decide; only input generation would be left, which is not this technique.")
NOT_APPLICABLE = {"C40": PURE, "C41": PURE, "C42": PURE, "C43": PURE, "C44": PURE}
