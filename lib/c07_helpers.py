import numpy as np
import refpi


def write(FS, P, T, J, s):
    rho, g, gp, gm = s
    np.savez(FS.path_rho_results + "P%d_T%.2f_J%d_data_points.npz" % (P, T, J), hash_vib=FS.hash_vib, hash_rho=FS.hash_rho,
             number_of_samples=len(rho), s_rho=rho, s_g=g, s_gP=gp, s_gM=gm)


def analytic(rng):
    Z = float(rng.uniform(0.5, 3) * 10.0 ** rng.randint(-3, 4))
    return dict(Z=Z, E=float(rng.uniform(-2, 2)), Cv=float(rng.uniform(-1e-3, 2e-3)),
                Zp=Z * (1 - float(rng.uniform(0.5, 2)) * refpi.DBETA), Zm=Z * (1 + float(rng.uniform(0.5, 2)) * refpi.DBETA))
