"""Contract of the error strategy's recover (C23), over the contract of the recovery set."""
from contracts import glue
from wizard.utils.error_strategy import WizardErrorStrategy


def install(m):
    glue.install(m)
    m.opaque[WizardErrorStrategy.getControlRecoverySet] = glue.h_recovery_set


def targets():
    return glue.targets_recover()
