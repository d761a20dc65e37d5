"""More repaired defects, found in the rate learning pipeline and later parts."""
FIXES = {
    'exclude transitions with too few atoms instead of failing': ('C26', 'transitions whose sheets have fewer atoms than a neighbourhood raised'),
    'plotting a transition no longer fails on the image size': ('C26', 'plotting a transition always raised'),
    'draw synthetic rates around the neighbor they belong to': ('C27', 'synthetic rates of the second and third neighbour were swapped'),
    'bootstrap data sets all samples of which are drawn': ('C28', 'bootstrapping raised when every sample was drawn'),
    'create data sets of transitions without a context': ('C28', 'data sets without a context raised'),
    'pair each transition with its own prediction in the rate loss': ('C29', 'with states given as a column every prediction was scored against every outcome'),
    'report the rates of all next states from the rate loss': ('C29', 'the rates reported with the loss were the total rate'),
    'predict learned rates for a given voltage and current': ('C30', 'predict raised when voltage or current are inputs'),
    'package learned models as per-neighbor rates of the whole ensemble': ('C30', 'saved models computed raw network outputs, and ensembles could not be saved'),
    'give learned rate models the beam position in angstroms, as in training': ('C30', 'beam positions were scaled by the bond length for prediction but not for training'),
    'save and restore the network state of learned rate models': ('C30', 'a loaded model used the batch statistics of an untrained one'),
    'predict with freshly packaged learned rate models': ('C30', 'predict raised unless the model had been saved and loaded'),
    'initialise batch-normalised rate models for batches of inputs': ('C30', 'untrained models with batch normalisation could not be applied'),
    'predict with learned rate models packaged for a fixed context': ('C30', 'predict raised after saving with a fixed context'),
    'pass the learning rate of sklearn perceptrons as a number': ('C34', 'training a scikit-learn perceptron raised'),
    'train support vector machines that predict probabilities': ('C34', 'training support vector machines raised'),
    'count the dwell time among the inputs of classification networks': ('C34', 'training classification networks raised'),
    'learn rates from transitions without a context': ('C34', 'training without voltage and current raised'),
    'draw rates with a fixed context for any number of points': ('C34', 'drawing rates with a fixed context raised for numbers of points that are not squares'),
    'replace cached model weights without leaving a part of the old ones': ('C32', 'a reload killed while removing the old weights left a part of them, taken for a complete model ever after'),
    'training scripts asked the metric writer for unknown options': ('C35', 'every training script failed at its first statement about metrics'),
    'image alignment accuracy compared every pixel with one index': ('C35', 'reported accuracies were not those of the predictions'),
    'the graph network could not be built, and had no edges': ('C35', 'building the graph network raised, and with that repaired no pair of atoms was joined'),
    'the best checkpoint of graph training was the worst': ('C35', 'the checkpoint kept as best had the largest error'),
    'training ignored the configured batch size': ('C35', 'batches had the default size whatever was configured'),
    'graph training could not be resumed': ('C35', 'restoring a checkpoint of graph training raised'),
    'resumed training repeated its last epoch': ('C35', 'an epoch that had been checkpointed was trained again after a restart'),
    'exported atom detectors could not be loaded': ('C35', 'the archive and the input name were not those AtomDetector looks for'),
    'exporting an aligner left the process in a removed directory': ('C35', 'after an export every relative path failed'),
    'recordings with a channel axis could not be converted': ('C36', 'images in the documented form (N, H, W, C) raised'),
    'uploaded beam positions were converted to the material frame twice': ('C36', 'beam positions were stored in the material frame, and converted again by every user'),
    'recordings of directories with dots were uploaded over each other': ('C36', 'the part of a directory name after its last dot was cut off, so that recordings replaced each other'),
    'Equalize images of any range in the image aligner': ('C24', 'by default, the image aligner raised for images with values beyond -1 and 1'),
    'Keep uploads of paths that are underscored alike apart': ('C36', 'recordings of directories like SheetA and sheet_a replaced each other'),
}
