# coding=utf-8
"""Access to the code under test."""
import os
import resource
import signal

from bpmn_python.bpmn_diagram_rep import BpmnDiagramGraph


def load(data, path):
    """Imports XML bytes."""
    with open(path, "wb") as f:
        f.write(data)
    d = BpmnDiagramGraph()
    d.load_diagram_from_xml_file(path)
    return d


def load_file(path):
    d = BpmnDiagramGraph()
    d.load_diagram_from_xml_file(path)
    return d


def load_csv(text, path):
    with open(path, "wb") as f:
        f.write(text if isinstance(text, bytes) else text.encode("utf-8"))
    d = BpmnDiagramGraph()
    d.load_diagram_from_csv_file(path)
    return d


def layout(d):
    from bpmn_python import bpmn_diagram_layouter
    bpmn_diagram_layouter.generate_layout(d)


def slurp(path):
    with open(path, "rb") as f:
        return f.read()


def export(d, directory, name="out.bpmn", no_di=False):
    """Exports and returns the bytes written."""
    if no_di:
        d.export_xml_file_no_di(directory, name)
    else:
        d.export_xml_file(directory, name)
    return slurp(os.path.join(directory, name))


def export_csv(d, directory, name="out.csv"):
    d.export_csv_file(directory, name)
    return slurp(os.path.join(directory, name))


def load_file_csv(path):
    d = BpmnDiagramGraph()
    d.load_diagram_from_csv_file(path)
    return d


def limited(f, limit):
    """Runs f with writes beyond the given file offset failing."""
    old = signal.signal(signal.SIGXFSZ, signal.SIG_IGN)
    soft, hard = resource.getrlimit(resource.RLIMIT_FSIZE)
    resource.setrlimit(resource.RLIMIT_FSIZE, (limit, hard))
    try:
        f()
        return None
    except Exception as e:
        return e
    finally:
        resource.setrlimit(resource.RLIMIT_FSIZE, (soft, hard))
        signal.signal(signal.SIGXFSZ, old)
