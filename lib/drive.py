"""Drive the repository's sampling engine and observe the paths it draws."""
import os
import numpy as np
import common
import models


class Run:
    pass


def make_fs(ctx_dir, vib, rho, id_data=0, id_rho=0):
    fs = common.load("pibronic.data.file_structure")
    with common.Quiet():
        FS = fs.FileStructure(ctx_dir, id_data, id_rho)
    models.write_json(FS.path_vib_model, vib)
    models.write_json(FS.path_rho_model, rho)
    with common.Quiet():
        FS.generate_model_hashes(True)
    return FS


def make_data(FS, pm, A, N, P, T, blocks, block_size, samples=None, delta_beta=None):
    pimc = common.load("pibronic.pimc.pimc")
    made = (P + blocks) % 3 == 0 and delta_beta is None   # objects built by hand, or from the directories
    if made:
        data = (pimc.BoxDataPM if pm else pimc.BoxData).from_FileStructure(FS)
        assert (data.id_data, data.id_rho) == (FS.id_data, FS.id_rho), (data.id_data, data.id_rho)
    elif pm:
        data = pimc.BoxDataPM() if delta_beta is None else pimc.BoxDataPM(delta_beta)
    else:
        data = pimc.BoxData()
    if not made:
        data.id_data, data.id_rho = FS.id_data, FS.id_rho
        data.path_vib_model, data.path_rho_model = FS.path_vib_model, FS.path_rho_model
        data.states, data.modes = A, N
    data.hash_vib, data.hash_rho = FS.hash_vib, FS.hash_rho
    data.beads, data.temperature = P, T
    data.blocks, data.block_size = blocks, block_size
    data.samples = blocks * block_size if samples is None else samples
    return data


def observe_paths(data):
    """wrap the instance's coordinate transform; returns a list filled with (slice, R) per block"""
    seen = []
    orig = getattr(data, "transform_sampled_coordinates", None)
    if orig is None:
        return seen

    def wrapper(sample_view, *a, **k):
        r = orig(sample_view, *a, **k)
        q = np.asarray(data.qTensor)
        seen.append((sample_view, q.copy()))
        return r
    data.transform_sampled_coordinates = wrapper
    return seen


def paths_of(q, N, P):
    """bead coordinates (X,N,P) out of the tensor the engine keeps them in (a state axis is redundant)"""
    q = np.asarray(q)
    if q.ndim == 4:
        q = q[:, 0]
    return q.reshape(-1, N, P)


def run(FS, pm, A, N, P, T, blocks, block_size, job=0, data=None, samples=None, delta_beta=None,
        preprocess=True, engine=None):
    """one complete run; returns Run with data, result, R (X,N,P) or None when not observable"""
    pimc = common.load("pibronic.pimc.pimc")
    out = Run()
    with common.Quiet():
        if data is None:
            data = make_data(FS, pm, A, N, P, T, blocks, block_size, samples, delta_beta)
        if preprocess:
            data.preprocess()
        result = pimc.BoxResultPM(data=data) if pm else pimc.BoxResult(data=data)
        result.path_root = FS.path_rho_results
        result.id_job = job
        seen = observe_paths(data)
        try:
            (engine or (pimc.block_compute_pm if pm else pimc.block_compute))(data, result)
        finally:
            data.__dict__.pop("transform_sampled_coordinates", None)
    out.data, out.result, out.seen = data, result, seen
    out.R = None
    X = blocks * block_size
    if len(seen) == blocks and all(s[1].shape[0] == block_size for s in seen):
        out.R = np.concatenate([paths_of(s[1], N, P) for s in seen])
        out.how = "hook"
    elif blocks == 1 and getattr(data, "qTensor", None) is not None:
        out.R = paths_of(data.qTensor, N, P).copy()
        out.how = "post-run"
    if out.R is not None:
        assert out.R.shape == (X, N, P), out.R.shape
    return out
