export PYTHONPATH="$PWD:${MC_REPO:-/repo}/src" PYTHONDONTWRITEBYTECODE=1 PYTHONPYCACHEPREFIX=/nonexistent/pycache
export MPLBACKEND=Agg PYTHONHASHSEED=0 HOME="${HOME:-/root}"
export OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 MKL_NUM_THREADS=1 NUMBA_NUM_THREADS=1
export MPLCONFIGDIR="${TMPDIR:-/tmp}/mc-mpl" HDF5_USE_FILE_LOCKING=FALSE
unset PYHIPP_CONFIG 2>/dev/null || true
