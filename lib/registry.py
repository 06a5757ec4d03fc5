"""Which harness decides which property, and what it is built from."""
CHECKS = {
    "C01": {"harness": "c01_shape.cpp"},
    "C02": {"harness": "c02_index.cpp"},
    "C03": {"harness": "c03_tensor.cpp"},
    "C04": {"harness": "c04_infer.cpp"},

    "C05": {"harness": "c05_copy.cpp"},
    "C06": {"harness": "c06_store.cpp"},
    "C07": {"harness": "c07_corrupt.cpp"},
    "C08": {"harness": "c08_elem.cpp"},
    "C12": {"harness": "c12_axial.cpp"},
    "C13": {"harness": "c13_reduce.cpp"},
    "C14": {"harness": "c14_trans.cpp"},
    "C15": {"harness": "c15_matmul.cpp", "variants": [{}, {"name": "strassen", "defs": ["-DENABLE_STRASSEN", "-O2"]}]},
    "C09": {"harness": "c09_expr.cpp"},
    "C10": {"harness": "c10_react.cpp"},
    "C11": {"harness": "c11_freeze.cpp"},
    "C16": {"harness": "c16_grad.cpp"},
    "C17": {"harness": "c17_life.cpp"},
    "C18": {"harness": "c18_observe.cpp"},
    "C19": {"harness": "c19_assign.cpp"},
    "C21": {"harness": "c21_optim.cpp", "gd": True},
    "C32": {"harness": "c32_netgrad.cpp"},
    "C22": {"harness": "c22_network.cpp", "gd": True, "roc": True},
    "C24": {"harness": "c24_modelcopy.cpp", "gd": True, "roc": True},
    "C25": {"harness": "c25_modelstore.cpp", "gd": True, "roc": True},
    "C26": {"harness": "c26_rbm.cpp", "gd": True, "roc": True},
    "C27": {"harness": "c27_sample.cpp"},
    "C28": {"harness": "c28_thread.cpp", "variants": [{}, {"name": "tsan", "san": ["-fsanitize=thread"]}]},
    "C20": {"harness": "c20_axisgrad.cpp"},
    "C29": {"harness": "c29_record.cpp", "variants": [{"defs": ["-DEDGE_RCD", "-DCSV_RCD"]}]},
    "C31": {"harness": "c31_graph.cpp"},
    "C30": {"harness": "c30_visor.cpp", "gui": True, "variants": [{"defs": ["-DEDGE_RCD", "-DRPC_RCD"]}], "file_flags": {"grpc_vis_record.cpp": ["-URPC_RCD"]}},
    "C33": {"harness": "c33_steady.cpp", "gd": True, "roc": True},
    "C23": {"harness": "c23_agent.cpp", "gd": True, "roc": True},
}
