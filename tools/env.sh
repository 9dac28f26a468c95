export PYTHONPATH=/verif:/repo/src:/opt/venv/lib/python3.12/site-packages PYTHONDONTWRITEBYTECODE=1 PYTHONPYCACHEPREFIX=/nonexistent PYTHONHASHSEED=0
