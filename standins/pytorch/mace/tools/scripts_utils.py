import copy


def remove_pt_head(model, head_to_keep=None):
    """the model with one head: the one named, or the first that is not the pretraining head"""
    if not hasattr(model, "heads") or len(model.heads) <= 1:
        raise ValueError("Model must be a multihead model with more than one head")
    if head_to_keep is None:
        i = next(i for i, h in enumerate(model.heads) if h != "pt_head")
    else:
        i = model.heads.index(head_to_keep)
    return model.single_head(i)
