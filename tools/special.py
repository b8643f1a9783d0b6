"""The checks that need more than scenarios: models, schedules, runs of the program."""
import models, meta, runs, threads
MODELS = models.MODELS
CHECKS = {'C25': threads.check, 'C26': runs.check, 'C27': meta.check, 'C29': runs.check_told}
REPLAYS = {'run': runs.replay, 'presentations': meta.replay, 'schedule': threads.replay}
